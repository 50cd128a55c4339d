------------------------------- MODULE Scalar -------------------------------
(* The code-generation scalar (C04).  A register holds a constant or an      *)
(* expression of the independents of one recording, possibly with a value.   *)
(* Two accounts are kept of every operation: `plain' is what arithmetic      *)
(* demands, `code' is what the design of the recorder (its constant folding  *)
(* and value propagation) produces.  Meanings are exact rationals at three   *)
(* points: the one the values are taken at and two others.                   *)
EXTENDS Rat, TLC, Json, FiniteSets, Randomization
CONSTANTS NR, Steps, Small
Consts == IF Small THEN {Q(0), Q(1), <<-1, 2>>} ELSE {Q(0), Q(1), Q(-1), Q(2), <<1, 2>>, Q(3), <<-3, 2>>}

Reg == 1 .. NR
Pts == 1 .. 3
VARIABLES plain,  \* register -> [m: meaning at the points, d: value defined, h: recording (0: none), n: identity of the expression]
          code,   \* register -> [p: is a parameter, m, d]
          step, log, nind
vars == <<plain, code, step, log, nind>>
R(S) == RandomElement(IF step >= 0 THEN S ELSE {})

Con(c) == <<c, c, c>>
Map1(f(_), a) == [i \in Pts |-> f(a[i])]
Map2(f(_, _), a, b) == [i \in Pts |-> f(a[i], b[i])]
Good(m) == \A i \in Pts : m[i] # Bad
Exact(m) == \A i \in Pts : Known(m[i])
Param(c) == [p |-> TRUE, m |-> Con(c), d |-> TRUE]
\* a pending operation: the operands are looked at as parameters when the recorder does
IsC(x, k) == x.p /\ x.m[1] = Q(k)

(* ---- plain arithmetic ---- *)
Ops2 == {"add", "sub", "mul", "div"}
Q2(o, a, b) == CASE o = "add" -> QAdd(a, b) [] o = "sub" -> QSub(a, b) [] o = "mul" -> QMul(a, b) [] o = "div" -> IF Known(b) \/ b = Bad THEN QDiv(a, b) ELSE IF a = Bad THEN Bad ELSE Unk
M2(o, x, y) == [i \in Pts |-> Q2(o, x[i], y[i])]
QSign(a) == IF ~Known(a) THEN a ELSE IF a[1] > 0 THEN Q(1) ELSE IF a[1] < 0 THEN Q(-1) ELSE Q(0)
QAbs(a) == IF Known(a) THEN <<Abs(a[1]), a[2]>> ELSE a
Funs == {"neg", "pos", "abs", "fabs", "sign", "acos", "asin", "atan", "cos", "cosh", "exp", "log", "sin", "sinh", "sqrt", "tan", "tanh",
         "erf", "erfc", "asinh", "acosh", "atanh", "expm1", "log1p", "log10"}
\* outside the domain of the function
Outside(f, a) == CASE f \in {"asin", "acos"} -> QLt(Q(1), QAbs(a)) [] f = "atanh" -> ~QLt(QAbs(a), Q(1)) [] f = "acosh" -> QLt(a, Q(1))
                   [] f \in {"log", "log10"} -> ~QLt(Q(0), a) [] f = "sqrt" -> QLt(a, Q(0)) [] f = "log1p" -> ~QLt(Q(-1), a) [] OTHER -> FALSE
Q1(f, a) == CASE f = "neg" -> QNeg(a) [] f = "pos" -> a [] f \in {"abs", "fabs"} -> QAbs(a) [] f = "sign" -> QSign(a)
              [] OTHER -> IF a = Bad THEN Bad ELSE IF ~Known(a) THEN Unk ELSE IF Outside(f, a) THEN Bad
                          ELSE IF a = Q(0) /\ f \in {"sin", "tan", "sinh", "tanh", "asin", "atan", "asinh", "atanh", "erf", "expm1", "log1p", "sqrt"} THEN Q(0)
                          ELSE IF a = Q(0) /\ f \in {"cos", "cosh", "exp", "erfc"} THEN Q(1)
                          ELSE IF a = Q(1) /\ f \in {"log", "log10", "acos", "acosh"} THEN Q(0)
                          ELSE IF a = Q(1) /\ f = "sqrt" THEN Q(1) ELSE Unk
M1(f, x) == [i \in Pts |-> Q1(f, x[i])]
QPw(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE IF ~Known(b) THEN Unk
             ELSE IF b[2] # 1 THEN Unk ELSE IF b[1] = 0 THEN Q(1) ELSE IF b[1] = 1 THEN a ELSE IF ~Known(a) THEN Unk
             ELSE IF Abs(b[1]) > 3 THEN Bad ELSE QPow(a, b[1])
MP(x, y) == [i \in Pts |-> QPw(x[i], y[i])]
Cops == {"lt", "le", "eq", "ge", "gt", "ne"}
Holds(c, a, b) == CASE c = "lt" -> QLt(a, b) [] c = "le" -> ~QLt(b, a) [] c = "eq" -> QEq(a, b) [] c = "ge" -> ~QLt(a, b) [] c = "gt" -> QLt(b, a) [] c = "ne" -> ~QEq(a, b)
QC(c, l, r, t, f) == IF Bad \in {l, r, t, f} THEN Bad ELSE IF t = f THEN t ELSE IF ~Known(l) \/ ~Known(r) THEN Unk ELSE IF Holds(c, l, r) THEN t ELSE f
MC(c, l, r, t, f) == [i \in Pts |-> QC(c, l[i], r[i], t[i], f[i])]

(* ---- what the recorder makes of it: folding and propagation of values ---- *)
Var(m, d) == [p |-> FALSE, m |-> m, d |-> d]
C2(o, x, y, same) ==
  CASE x.p /\ y.p -> [p |-> TRUE, m |-> M2(o, x.m, y.m), d |-> TRUE]
    [] o = "add" /\ IsC(x, 0) -> y
    [] o \in {"add", "sub"} /\ IsC(y, 0) -> x
    [] o = "mul" /\ (IsC(x, 0) \/ IsC(y, 0)) -> Param(Q(0))
    [] o = "mul" /\ IsC(x, 1) -> y
    [] o \in {"mul", "div"} /\ IsC(y, 1) -> x
    [] o = "div" /\ IsC(x, 0) -> Param(Q(0))
    [] o = "div" /\ ~x.p /\ ~y.p /\ same -> Param(Q(1))
    [] OTHER -> Var(M2(o, x.m, y.m), x.d /\ y.d)
C1(f, x) == IF f = "pos" THEN x ELSE IF x.p THEN [x EXCEPT !.m = M1(f, x.m)] ELSE Var(M1(f, x.m), x.d)
CP(x, y) == IF x.p /\ y.p THEN [p |-> TRUE, m |-> MP(x.m, y.m), d |-> TRUE]
            ELSE IF IsC(y, 0) THEN Param(Q(1)) ELSE IF IsC(y, 1) THEN x ELSE Var(MP(x.m, y.m), x.d /\ y.d)
CC(c, l, r, t, f, same) ==
  IF l.p /\ r.p THEN (IF Holds(c, l.m[1], r.m[1]) THEN t ELSE f)
  ELSE IF (t.p /\ f.p /\ t.m = f.m /\ Exact(t.m)) \/ (~t.p /\ ~f.p /\ same) THEN t
  ELSE LET sel == Holds(c, l.m[1], r.m[1]) IN
       Var(MC(c, l.m, r.m, t.m, f.m), l.d /\ r.d /\ (IF ~Known(l.m[1]) \/ ~Known(r.m[1]) THEN t.d /\ f.d ELSE IF sel THEN t.d ELSE f.d))

(* ---- histories ---- *)
Hs(S) == {plain[r].h : r \in S} \ {0}
\* recordings of the operands the recorder really combines
CHs(S) == {plain[r].h : r \in {s \in S : ~code[s].p}}
Nm == step + 1
Emit(a) == log' = IF Small THEN log ELSE Append(log, a)
View(P, C) == [r \in Reg |-> [m |-> P[r].m, p |-> C[r].p, d |-> C[r].d, h |-> P[r].h]]
A(op, r, args) == [op |-> op, r |-> r, args |-> args]
Put(r, P, C, a, can) ==
  /\ Good(P.m)
  /\ plain' = [plain EXCEPT ![r] = P] /\ code' = [code EXCEPT ![r] = C]
  /\ step' = step + 1
  /\ Emit([a |-> a, can |-> can, ans |-> "", v |-> View(plain', code')])
Refuse(a, ans) == /\ UNCHANGED <<plain, code, nind>> /\ step' = step + 1 /\ Emit([a |-> a, can |-> "no", ans |-> ans, v |-> View(plain, code)])

PlainCon(c) == [m |-> Con(c), d |-> TRUE, h |-> 0, n |-> 0]
Constant(r, c, how) == Put(r, PlainCon(c), Param(c), A(how, r, <<c>>), "yes") /\ UNCHANGED nind
Default(r) == Put(r, PlainCon(Q(0)), Param(Q(0)), A("default", r, <<>>), "yes") /\ UNCHANGED nind
Indep(r, h, m, d) == Put(r, [m |-> m, d |-> d, h |-> h, n |-> Nm], [p |-> FALSE, m |-> m, d |-> d], A("indep", r, <<h, m, d>>), "yes") /\ nind' = [nind EXCEPT ![h] = @ + 1]
\* a parameter becomes another constant; a variable is given the value it has at the first point
SetValue(r, c) == IF code[r].p /\ plain[r].h = 0 THEN Put(r, PlainCon(c), Param(c), A("setvalue", r, <<c>>), "yes") /\ UNCHANGED nind
                  ELSE /\ ~code[r].p
                       /\ Put(r, [plain[r] EXCEPT !.d = TRUE], [code[r] EXCEPT !.d = TRUE], A("setvalue", r, <<plain[r].m[1]>>), "yes") /\ UNCHANGED nind
Copy(r, s, how) == Put(r, plain[s], code[s], A(how, r, <<s>>), "yes") /\ UNCHANGED nind
Plain(m, S, d) == [m |-> m, d |-> d, h |-> IF Hs(S) = {} THEN 0 ELSE CHOOSE h \in Hs(S) : TRUE, n |-> Nm]
Same(a, b) == plain[a].n = plain[b].n
Mixed(S) == Cardinality(CHs(S)) > 1
Binary(how, o, r, a, b) ==
  LET act == A(how, r, <<o, a, b>>) IN
  IF Mixed({a, b}) THEN Refuse(act, "")
  ELSE Cardinality(Hs({a, b})) <= 1 /\ Put(r, Plain(M2(o, plain[a].m, plain[b].m), {a, b}, plain[a].d /\ plain[b].d), C2(o, code[a], code[b], Same(a, b) /\ how = "bin"), act, "yes") /\ UNCHANGED nind
\* with a number on one side
BinaryC(how, o, r, a, c, left) ==
  LET x == [plain |-> PlainCon(c), code |-> Param(c)] y == [plain |-> plain[a], code |-> code[a]]
      u == IF left THEN x ELSE y  w == IF left THEN y ELSE x IN
  Put(r, Plain(M2(o, u.plain.m, w.plain.m), {a}, plain[a].d), C2(o, u.code, w.code, FALSE), A(how, r, <<o, a, c, left>>), "yes") /\ UNCHANGED nind
Unary(f, r, a) == Put(r, Plain(M1(f, plain[a].m), {a}, plain[a].d), C1(f, code[a]), A("un", r, <<f, a>>), "yes") /\ UNCHANGED nind
Power(r, a, b) ==
  IF Mixed({a, b}) THEN Refuse(A("pow", r, <<a, b>>), "")
  ELSE Cardinality(Hs({a, b})) <= 1 /\ Put(r, Plain(MP(plain[a].m, plain[b].m), {a, b}, plain[a].d /\ plain[b].d), CP(code[a], code[b]), A("pow", r, <<a, b>>), "yes") /\ UNCHANGED nind
PowerC(r, a, c, left) ==
  LET m == IF left THEN MP(Con(c), plain[a].m) ELSE MP(plain[a].m, Con(c))
      k == IF left THEN CP(Param(c), code[a]) ELSE CP(code[a], Param(c)) IN
  Put(r, Plain(m, {a}, plain[a].d), k, A("powc", r, <<a, c, left>>), "yes") /\ UNCHANGED nind
Cond(c, r, l, q, t, f) ==
  LET S == {l, q, t, f} act == A("cond", r, <<c, l, q, t, f>>)
      k == IF c = "ne" THEN CC("eq", code[l], code[q], code[f], code[t], Same(t, f)) ELSE CC(c, code[l], code[q], code[t], code[f], Same(t, f))
      d == plain[l].d /\ plain[q].d /\ plain[t].d /\ plain[f].d IN
  IF Mixed(S) THEN /\ ~(code[l].p /\ code[q].p) /\ (code[t].p # code[f].p \/ (~code[t].p /\ plain[t].h # plain[f].h) \/ (Exact(plain[t].m) /\ Exact(plain[f].m) /\ plain[t].m # plain[f].m)) /\ Refuse(act, "")
  ELSE Cardinality(Hs(S)) <= 1 /\ (code[l].p /\ code[q].p => Exact(code[l].m) /\ Exact(code[q].m)) /\ Put(r, Plain(MC(c, plain[l].m, plain[q].m, plain[t].m, plain[f].m), S, d), k, act, "yes") /\ UNCHANGED nind

\* questions: comparisons of constants answer, order comparisons of variables are refused, (in)equality of variables is that of expressions
T(b) == IF b THEN "true" ELSE "false"
Ask(a, can, ans) == /\ UNCHANGED <<plain, code, nind>> /\ step' = step + 1 /\ Emit([a |-> a, can |-> can, ans |-> ans, v |-> View(plain, code)])
Compare(c, a, b) ==
  LET both == code[a].p /\ code[b].p x == code[a].m[1] y == code[b].m[1] act == A("cmp", 0, <<c, a, b>>) IN
  IF both THEN Known(x) /\ Known(y) /\ Ask(act, "yes", T(Holds(c, x, y)))
  ELSE IF c \notin {"eq", "ne"} THEN Ask(act, "no", "")
  ELSE Ask(act, "yes", IF code[a].p # code[b].p THEN T(c = "ne") ELSE IF Same(a, b) THEN T(c = "eq") ELSE IF code[a].m # code[b].m THEN T(c = "ne") ELSE "any")
\* equality with a number
CompareC(c, a, k, left) ==
  LET act == A("cmpc", 0, <<c, a, k, left>>) IN
  IF code[a].p THEN Known(code[a].m[1]) /\ Ask(act, "yes", T(Holds(c, code[a].m[1], k))) ELSE Ask(act, "yes", T(c = "ne"))
Preds == {"gtz", "gez", "ltz", "lez", "izero", "ione", "isnan", "ident", "int", "idzero", "idone"}
Predicate(q, a) ==
  LET x == code[a].m[1] act == A("pred", 0, <<q, a>>) IN
  IF ~code[a].p THEN (CASE q \in {"gtz", "gez", "ltz", "lez"} -> Ask(act, "no", "")
                        [] q = "int" -> IF code[a].d THEN Known(x) /\ Dyadic(x) /\ Ask(act, "yes", ToString(IF x[1] < 0 THEN -(Abs(x[1]) \div x[2]) ELSE x[1] \div x[2])) ELSE Ask(act, "no", "")
                        [] OTHER -> Ask(act, "yes", "false"))
  ELSE Known(x) /\ Dyadic(x) /\ Ask(act, "yes",
         CASE q = "gtz" -> T(QLt(Q(0), x)) [] q = "gez" -> T(~QLt(x, Q(0))) [] q = "ltz" -> T(QLt(x, Q(0))) [] q = "lez" -> T(~QLt(Q(0), x))
           [] q \in {"izero", "idzero"} -> T(x = Q(0)) [] q \in {"ione", "idone"} -> T(x = Q(1)) [] q = "isnan" -> "false" [] q = "ident" -> "true"
           [] q = "int" -> ToString(IF x[1] < 0 THEN -(Abs(x[1]) \div x[2]) ELSE x[1] \div x[2]))
AbsGeq(a, b) ==
  LET act == A("absgeq", 0, <<a, b>>) x == QAbs(code[a].m[1]) y == QAbs(code[b].m[1]) IN
  IF code[a].p /\ code[b].p THEN Known(x) /\ Known(y) /\ Ask(act, "yes", T(~QLt(x, y))) ELSE Ask(act, "no", "")

Points == {<<Q(2), Q(-1), <<1, 2>>>>, <<Q(0), Q(3), Q(-2)>>, <<<<-1, 2>>, Q(1), Q(2)>>, <<Q(1), Q(0), <<3, 2>>>>, <<Q(-1), <<1, 4>>, Q(1)>>, <<Q(3), Q(2), <<-1, 4>>>>}
\* exhaustive check: from any contents of the registers
Starts == {PlainCon(c) : c \in Consts} \cup {[m |-> m, d |-> d, h |-> h, n |-> -h] : m \in {<<Q(2), Q(-1), <<1, 2>>>>, <<Q(0), Q(3), Q(-2)>>}, d \in BOOLEAN, h \in 1 .. 2}
Init == /\ plain \in (IF Small THEN [Reg -> Starts] ELSE {[r \in Reg |-> PlainCon(Q(0))]})
        /\ (\A r, s \in Reg : plain[r].n = plain[s].n => plain[r].m = plain[s].m \/ plain[r].h = 0) = TRUE
        /\ code = [r \in Reg |-> [p |-> plain[r].h = 0, m |-> plain[r].m, d |-> plain[r].d]]
        /\ step = 0 /\ log = <<>> /\ nind = <<0, 0>>
\* every action, for the exhaustive check
NextAll == /\ step < Steps
           /\ \E r \in Reg :
                \/ \E c \in Consts : Constant(r, c, "const")
                \/ \E m \in Points, d \in BOOLEAN, h \in 1 .. 2 : m[1] \in {Q(2), Q(0)} /\ Indep(r, h, m, d)
                \/ SetValue(r, Q(1))
                \/ \E a \in Reg : Copy(r, a, "copy") \/ (\E f \in {"neg", "abs", "sign", "sin"} : Unary(f, r, a))
                \/ \E a, b \in Reg, o \in Ops2 : Binary("bin", o, r, a, b)
                \/ \E a, b \in Reg : Power(r, a, b)
                \/ \E a \in Reg, o \in Ops2, c \in Consts : BinaryC("binc", o, r, a, c, TRUE)
                \/ \E a \in Reg, o \in Ops2 : Binary("asg", o, r, r, a)
                \/ \E l, q, t, f \in Reg, c \in {"lt", "eq", "ne"} : Cond(c, r, l, q, t, f)
\* one random action
Pick(k) == \E r \in {R(Reg)}, a \in {R(Reg)}, b \in {R(Reg)}, l \in {R(Reg)}, q \in {R(Reg)}, c \in {R(Consts)}, left \in {R(BOOLEAN)}, o \in {R(Ops2)},
              h \in {R(1 .. 5) \div 5 + 1}, pt \in {R(Points)}, f \in {R(Funs)}, cc \in {R(Cops)}, pr \in {R(Preds)}, v \in {R(1 .. 4)} :
  CASE k = 1 -> Constant(r, c, <<"const", "constasg", "int", "int">>[v])
    [] k \in {2, 23} -> Indep(r, h, pt, left)
    [] k = 3 -> SetValue(r, c)
    [] k = 4 -> Copy(r, a, <<"copy", "construct", "move", "movector">>[v])
    [] k \in {5, 6, 7} -> Binary("bin", o, r, a, b)
    [] k = 8 -> BinaryC(<<"binc", "bini", "binc", "bini">>[v], o, r, a, c, left)
    [] k \in {9, 10} -> Binary("asg", o, r, r, a)
    [] k = 11 -> BinaryC(<<"asgc", "asgi", "asgc", "asgi">>[v], o, r, r, c, FALSE)
    [] k \in {12, 13} -> Unary(f, r, a)
    [] k = 14 -> Power(r, a, b)
    [] k = 15 -> PowerC(r, a, c, left)
    [] k \in {16, 17} -> Cond(cc, r, l, q, a, b)
    [] k = 18 -> IF v < 3 THEN Compare(cc, a, b) ELSE CompareC(<<"eq", "ne">>[v - 2], a, c, left)
    [] k = 19 -> Predicate(pr, a)
    [] k = 20 -> Unary(<<"neg", "pos", "abs", "sign">>[v], r, a)
    [] k = 21 -> AbsGeq(a, b)
    [] k = 22 -> Default(r)
    \* coincidences: a constant that equals the value of an expression, and questions about operands of equal value
    [] k = 24 -> LET x == code[a].m[1] IN Known(x) /\ Dyadic(x) /\ Constant(r, x, "const")
    [] k \in {25, 26} -> LET x == code[a].m[1] S == {j \in Reg : j # a /\ code[j].m[1] = x} e == <<"eq", "ne">>[v \div 3 + 1] IN
                   IF S = {} \/ (left /\ v % 2 = 0) THEN Known(x) /\ Dyadic(x) /\ CompareC(e, a, x, left)
                   ELSE \E j \in {R(S)} : IF left THEN Compare(e, a, j) ELSE Compare(e, j, a)
\* a random choice that is not possible is made again
Next == \/ step < Steps /\ \E k \in {R(1 .. 26)} : Pick(k)
        \/ step < Steps /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
SpecSmall == Init /\ [][NextAll]_vars

(* ---- the design satisfies the contract ---- *)
Meaning == \A r \in Reg : \A i \in Pts : Known(plain[r].m[i]) /\ Known(code[r].m[i]) => plain[r].m[i] = code[r].m[i]
Constness == \A r \in Reg : /\ code[r].p => code[r].d /\ (code[r].m[1] = code[r].m[2] /\ code[r].m[1] = code[r].m[3])
                            /\ plain[r].h = 0 => code[r].p
Values == \A r \in Reg : plain[r].d => code[r].d
EmitInv == step = Steps => PrintT(<<"GEN", ToJson([log |-> log])>>)
\* the log is not part of the state that is explored exhaustively
SmallView == <<plain, code, step>>
=============================================================================
