------------------------------- MODULE Graph -------------------------------
(* The recording machine.  A recording is a sequence of operations on         *)
(* independent variables, constants and earlier results.  Its meaning is the  *)
(* function it computes: every node carries its exact value at the current    *)
(* point and (DOrder >= 1, 2) its gradient and Hessian, by the rules of        *)
(* second-order forward differentiation.  Irrational results are Unk.         *)
EXTENDS Rat, TLC, FiniteSets
CONSTANTS NI,      \* independent variables
          DOrder   \* 0: values only, 1: gradients, 2: Hessians
VARIABLES nodes,   \* <<op, args..>> ; args are node numbers
          val      \* node -> [v, g, h, x]   x: the double computed by any correct program is exactly v

D1 == 1 .. NI
Zero1 == [i \in D1 |-> Q(0)]
Zero2 == [i \in D1 |-> Zero1]
Dual(v, g, h, x) == [v |-> v, g |-> g, h |-> h, x |-> x]
ConstD(q) == Dual(q, Zero1, Zero2, Dyadic(q))
IndepD(q, k) == Dual(q, [i \in D1 |-> IF i = k THEN Q(1) ELSE Q(0)], Zero2, Dyadic(q))

Map1(F(_)) == IF DOrder >= 1 THEN [i \in D1 |-> F(i)] ELSE Zero1
Map2(F(_, _)) == IF DOrder >= 2
                 THEN LET t == [i \in D1 |-> [j \in 1 .. i |-> F(i, j)]] IN [i \in D1 |-> [j \in D1 |-> IF j <= i THEN t[i][j] ELSE t[j][i]]]
                 ELSE Zero2
\* f(u) given f, f', f'' at u
Chain(u, f, f1, f2, x) ==
  Dual(f, Map1(LAMBDA i : QMul(f1, u.g[i])),
          Map2(LAMBDA i, j : QAdd(QMul(f1, u.h[i][j]), QMul(f2, QMul(u.g[i], u.g[j])))), x)
DAdd(u, w, s) == \* u + s*w, s = 1 or -1
  LET S(q) == IF s = 1 THEN q ELSE QNeg(q) v == QAdd(u.v, S(w.v)) IN
  Dual(v, Map1(LAMBDA i : QAdd(u.g[i], S(w.g[i]))), Map2(LAMBDA i, j : QAdd(u.h[i][j], S(w.h[i][j]))), u.x /\ w.x /\ Dyadic(v))
DMul(u, w) ==
  LET v == QMul(u.v, w.v) IN
  Dual(v, Map1(LAMBDA i : QAdd(QMul(u.g[i], w.v), QMul(u.v, w.g[i]))),
       Map2(LAMBDA i, j : QAdd(QAdd(QMul(u.h[i][j], w.v), QMul(u.v, w.h[i][j])), QAdd(QMul(u.g[i], w.g[j]), QMul(u.g[j], w.g[i])))),
       u.x /\ w.x /\ Dyadic(v))
DInv(w) == LET r == QInv(w.v) IN Chain(w, r, QNeg(QMul(r, r)), QMul(Q(2), QMul(r, QMul(r, r))), w.x /\ Dyadic(r))
DDiv(u, w) == LET p == DMul(u, DInv(w)) IN [p EXCEPT !.x = u.x /\ w.x /\ Dyadic(p.v)]
DNeg(u) == Dual(QNeg(u.v), Map1(LAMBDA i : QNeg(u.g[i])), Map2(LAMBDA i, j : QNeg(u.h[i][j])), u.x)

\* unary functions at the points where value, first and second derivative are rational: <<f, f', f''>>
U == <<Unk, Unk, Unk>>
At(u, p, t) == IF u.v = Q(p) THEN t ELSE U
Odd == <<Q(0), Q(1), Q(0)>>
Tab(op, u) ==
  CASE op \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"} -> At(u, 0, Odd)
    [] op = "cos" -> At(u, 0, <<Q(1), Q(0), Q(-1)>>)
    [] op = "cosh" -> At(u, 0, <<Q(1), Q(0), Q(1)>>)
    [] op = "exp" -> At(u, 0, <<Q(1), Q(1), Q(1)>>)
    [] op = "expm1" -> At(u, 0, <<Q(0), Q(1), Q(1)>>)
    [] op = "log1p" -> At(u, 0, <<Q(0), Q(1), Q(-1)>>)
    [] op = "log" -> At(u, 1, <<Q(0), Q(1), Q(-1)>>)
    [] op = "sqrt" -> IF u.v = Q(1) THEN <<Q(1), <<1, 2>>, <<-1, 4>>>> ELSE At(u, 4, <<Q(2), <<1, 4>>, <<-1, 32>>>>)
    [] OTHER -> U
\* domains (of the exact value when it is known)
InDomain(op, u) ==
  IF ~Known(u.v) THEN op \notin {"div", "log", "sqrt", "log10", "acosh", "asin", "acos", "atanh", "pow", "log1p", "tan", "abs", "sign"}
  ELSE CASE op \in {"log", "sqrt", "log10"} -> u.v[1] > 0
         [] op = "acosh" -> QLt(Q(1), u.v)
         [] op \in {"asin", "acos", "atanh"} -> QLt(Q(-1), u.v) /\ QLt(u.v, Q(1))
         [] op = "log1p" -> QLt(Q(-1), u.v)
         [] op \in {"exp", "sinh", "cosh", "expm1"} -> QLt(u.v, Q(6)) /\ QLt(Q(-6), u.v)
         [] op = "tan" -> QLt(u.v, <<3, 2>>) /\ QLt(<<-3, 2>>, u.v)
         [] op \in {"abs", "sign", "div"} -> u.v[1] # 0
         [] op = "pow" -> u.v[1] > 0
         [] OTHER -> TRUE
Unary == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "expm1", "log", "log1p", "log10",
          "sqrt", "erf", "erfc"}
DUn(op, u) ==
  IF op = "neg" THEN DNeg(u)
  ELSE IF op = "abs" THEN (IF u.v[1] < 0 THEN DNeg(u) ELSE u)
  ELSE IF op = "sign" THEN ConstD(IF u.v[1] < 0 THEN Q(-1) ELSE IF u.v[1] > 0 THEN Q(1) ELSE Q(0))
  ELSE LET t == Tab(op, u) IN Chain(u, t[1], t[2], t[3], FALSE)
AllUnk(x) == Dual(Unk, [i \in D1 |-> IF DOrder >= 1 THEN Unk ELSE Q(0)], [i \in D1 |-> [j \in D1 |-> IF DOrder >= 2 THEN Unk ELSE Q(0)]], FALSE)
DPow(u, w) == \* u > 0
  IF u.v = Q(1) /\ Known(w.v) THEN \* u^w at u = 1: f = 1, fu = w, fw = 0, fuu = w(w-1), fuw = 1, fww = 0
    LET y == w.v IN
    Dual(Q(1), Map1(LAMBDA i : QMul(y, u.g[i])),
         Map2(LAMBDA i, j : QAdd(QAdd(QMul(y, u.h[i][j]), QMul(QMul(y, QSub(y, Q(1))), QMul(u.g[i], u.g[j]))),
                                 QAdd(QMul(u.g[i], w.g[j]), QMul(u.g[j], w.g[i])))), FALSE)
  ELSE IF w.g = Zero1 /\ w.h = Zero2 /\ Known(w.v) /\ w.v[2] = 1 /\ Abs(w.v[1]) <= 3 /\ DOrder >= 1
  THEN LET k == w.v[1] IN
       Chain(u, QPow(u.v, k), QMul(Q(k), QPow(u.v, k - 1)), QMul(Q(k * (k - 1)), QPow(u.v, k - 2)), FALSE)
  ELSE IF w.g = Zero1 /\ w.h = Zero2 THEN Chain(u, Unk, Unk, Unk, FALSE)
  ELSE AllUnk(u)
Cmp(op, a, b) == CASE op = "lt" -> QLt(a, b) [] op = "le" -> ~QLt(b, a) [] op = "eq" -> a = b
                   [] op = "ge" -> ~QLt(a, b) [] op = "gt" -> QLt(b, a) [] op = "ne" -> a # b
CmpOps == {"lt", "le", "eq", "ge", "gt", "ne"}
\* a comparison is decided by the doubles only if the values differ or both are exact
Decided(u, w) == Known(u.v) /\ Known(w.v) /\ (u.v # w.v \/ (u.x /\ w.x))

\* user-supplied (atomic) functions: <<"call", f, k, arguments>> is output k of function f; its meaning is the inlined computation
Arity == <<2, 1, 3, 2>>
Outs == <<2, 1, 3, 1>>
Call(f, k, a) ==
  CASE f = 1 -> IF k = 1 THEN DMul(a[1], a[2]) ELSE DAdd(a[1], a[2], 1)
    [] f = 2 -> DAdd(DMul(a[1], a[1]), ConstD(Q(1)), 1)
    [] f = 3 -> (CASE k = 1 -> DMul(DMul(a[1], a[2]), a[3]) [] k = 2 -> DAdd(a[1], a[3], -1) [] OTHER -> a[2])
    [] OTHER -> DMul(DUn("sin", a[1]), a[2])
\* the meaning of one node given the meaning of the earlier ones; vs is indexable by node number
Meaning(nd, vs) ==
  LET op == nd[1] IN
  CASE op = "const" -> ConstD(nd[2])
    [] op = "add" -> DAdd(vs[nd[2]], vs[nd[3]], 1)
    [] op = "sub" -> DAdd(vs[nd[2]], vs[nd[3]], -1)
    [] op = "mul" -> DMul(vs[nd[2]], vs[nd[3]])
    [] op = "div" -> DDiv(vs[nd[2]], vs[nd[3]])
    [] op = "pow" -> DPow(vs[nd[2]], vs[nd[3]])
    [] op = "cond" -> IF Cmp(nd[2], vs[nd[3]].v, vs[nd[4]].v) THEN vs[nd[5]] ELSE vs[nd[6]]
    [] op = "call" -> Call(nd[2], nd[3], [i \in 1 .. Arity[nd[2]] |-> vs[nd[3 + i]]])
    [] OTHER -> DUn(op, vs[nd[2]])
IsBad(d) == d.v = Bad \/ (\E i \in D1 : d.g[i] = Bad \/ \E j \in D1 : d.h[i][j] = Bad)
\* an operation may be recorded
Legal(nd, vs) ==
  LET op == nd[1] IN
  CASE op = "const" -> TRUE
    [] op \in {"add", "sub", "mul"} -> TRUE
    [] op = "div" -> InDomain("div", vs[nd[3]])
    [] op = "pow" -> InDomain("pow", vs[nd[2]])
    [] op = "cond" -> Decided(vs[nd[3]], vs[nd[4]])
    [] op \in {"neg", "call"} -> TRUE
    [] OTHER -> InDomain(op, vs[nd[2]])

\* append the nodes ns (a sequence) if each is legal and stays in range
RECURSIVE Extend(_, _, _)
Extend(vs, ns, k) ==
  IF k > Len(ns) THEN [ok |-> TRUE, vs |-> vs]
  ELSE IF ~Legal(ns[k], vs) THEN [ok |-> FALSE, vs |-> vs]
  ELSE LET d == Meaning(ns[k], vs) IN IF IsBad(d) THEN [ok |-> FALSE, vs |-> vs] ELSE Extend(Append(vs, d), ns, k + 1)
Record(ns) == \E n \in {ns} : \E e \in {Extend(val, n, 1)} : e.ok /\ nodes' = nodes \o n /\ val' = e.vs
=============================================================================
