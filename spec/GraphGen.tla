------------------------------ MODULE GraphGen ------------------------------
(* Random behaviours of the recording machine (tlc -simulate), printed as     *)
(* programs with their exact expected results.                                *)
EXTENDS Graph, Json
CONSTANTS NN,        \* nodes to reach
          ND,        \* dependents
          Profile    \* which operations: "rat" | "full" | "cond"
VARIABLES deps, phase, tries
gvars == <<nodes, val, deps, phase, tries>>
R(S) == RandomElement(S)
Consts == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<1, 2>>, <<-3, 1>>, <<1, 3>>, <<5, 2>>, <<7, 1>>, <<-1, 4>>, <<10, 1>>}
Points == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<2, 1>>, <<1, 2>>, <<-3, 2>>, <<3, 1>>, <<-2, 1>>, <<1, 4>>}
Init == nodes = <<>> /\ val = <<>> /\ deps = <<>> /\ phase = 0 /\ tries = 0
Start == /\ phase = 0 /\ phase' = 1
         /\ nodes' = [i \in D1 |-> <<"indep", i>>]
         /\ val' = [i \in D1 |-> IndepD(R(Points), i)]
         /\ UNCHANGED <<deps, tries>>
N == Len(nodes)
Pick == IF R(1 .. 3) <= 2 THEN R((IF N > 4 THEN N - 4 ELSE 1) .. N) ELSE R(1 .. N)
Bin == <<"add", "sub", "mul", "mul", "div", "add", "sub">>
UnS == <<"neg", "sin", "cos", "exp", "log", "sqrt", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "expm1", "log1p",
         "log10", "erf", "erfc", "abs", "sign", "neg", "abs">>
Choice(s) == s[R(1 .. Len(s))]
\* the value that makes op exact, when there is one
Target(op) == CASE op \in {"log", "pow"} -> Q(1) [] op = "sqrt" -> R({Q(1), Q(4)}) [] op \in {"acosh"} -> Q(2) [] op = "log10" -> Q(10)
                [] op \in {"abs", "sign"} -> R({Q(2), Q(-2)}) [] OTHER -> Q(0)
Shifted(op, a, rest(_)) == \* <<const t, a + t, op(a + t)>>
  IF ~Known(val[a].v) THEN <<rest(a)>>
  ELSE LET t == QSub(Target(op), val[a].v) IN <<<<"const", t>>, <<"add", a, N + 1>>, rest(N + 2)>>
BinStep == LET op == Choice(Bin) IN Record(<<<<op, Pick, IF R(1 .. 4) = 1 THEN R(D1) ELSE Pick>>>>)
ConstStep == LET op == Choice(Bin) a == Pick IN
             Record(<<<<"const", R(Consts)>>, IF R({0, 1}) = 0 THEN <<op, a, N + 1>> ELSE <<op, N + 1, a>>>>)
UnStep == LET op == Choice(UnS) a == Pick IN
          IF op \in {"neg"} \/ R(1 .. 3) = 1 THEN Record(<<<<op, a>>>>) ELSE Record(Shifted(op, a, LAMBDA k : <<op, k>>))
PowStep == LET a == Pick IN
           IF R(1 .. 2) = 1 THEN LET b == Pick IN Record(Shifted("pow", a, LAMBDA k : <<"pow", k, b>>))
           ELSE Record(<<<<"const", R({Q(2), Q(3), Q(-1), Q(0), Q(1), Q(-2), <<1, 2>>})>>, <<"pow", a, N + 1>>>>)
CondStep == LET l == Pick r == Pick IN
  IF R(1 .. 3) = 1 THEN \* compare with the value itself: equality
     Known(val[l].v) /\ Record(<<<<"const", val[l].v>>, IF R({0, 1}) = 0 THEN <<"cond", R(CmpOps), l, N + 1, Pick, Pick>> ELSE <<"cond", R(CmpOps), N + 1, l, Pick, Pick>>>>)
  ELSE IF R(1 .. 2) = 1 THEN Record(<<<<"const", R(Consts)>>, <<"cond", R(CmpOps), l, N + 1, Pick, Pick>>>>)
  ELSE Record(<<<<"cond", R(CmpOps), l, r, Pick, Pick>>>>)
\* a conditional whose branches are computed for it, sharing a sub-expression with each other, the condition or earlier conditionals
Mini == <<"add", "sub", "mul", "add">>
Leaf(k) == IF R(1 .. 3) = 1 THEN k ELSE Pick
NestStep == \E s \in {N + 1} : \E l \in {IF R(1 .. 3) = 1 THEN s ELSE Pick} : \E eq \in {R(1 .. 4) = 1} :
  IF eq /\ l # s /\ Known(val[l].v)
  THEN Record(<<<<Choice(Mini), Pick, Pick>>, <<Choice(Mini), Leaf(s), Leaf(s)>>, <<Choice(Mini), Leaf(s), Pick>>, <<"const", val[l].v>>,
                IF R({0, 1}) = 0 THEN <<"cond", R(CmpOps), l, s + 3, s + 1, s + 2>> ELSE <<"cond", R(CmpOps), s + 3, l, s + 2, s + 1>>>>)
  ELSE Record(<<<<Choice(Mini), Pick, Pick>>, <<Choice(Mini), Leaf(s), Leaf(s)>>, <<Choice(Mini), Leaf(s), Pick>>,
                <<"cond", R(CmpOps), l, Pick, s + 1, s + 2>>>>)
\* a call of a user function: all its outputs are recorded together
CallStep == \E f \in {R(1 .. 4)} : \E a \in {[i \in 1 .. Arity[f] |-> Pick]} :
  IF R(1 .. 4) = 1 THEN \* a constant argument
       \E p \in {R(1 .. Arity[f])} : Record(<<<<"const", R(Consts)>>>> \o [k \in 1 .. Outs[f] |-> <<"call", f, k>> \o [a EXCEPT ![p] = N + 1]])
  ELSE Record([k \in 1 .. Outs[f] |-> <<"call", f, k>> \o a])
\* products and sums of recent results with the independents: many second-order elements
MixStep == Record(<<<<R({"mul", "mul", "div"}), Pick, R(D1)>>, <<R({"add", "sub", "mul"}), N + 1, Pick>>>>)
Step == /\ phase = 1 /\ N < NN /\ tries < 6 * NN
        /\ \/ (Profile = "rat" /\ \E k \in {R(1 .. 8)} : IF k <= 5 THEN BinStep ELSE IF k <= 7 THEN ConstStep ELSE Record(<<<<"neg", Pick>>>>))
           \/ (Profile = "full" /\ \E k \in {R(1 .. 20)} : IF k <= 7 THEN BinStep ELSE IF k <= 11 THEN ConstStep ELSE IF k <= 17 THEN UnStep ELSE IF k <= 18 THEN PowStep ELSE CondStep)
           \/ (Profile = "smooth" /\ \E k \in {R(1 .. 18)} : IF k <= 7 THEN BinStep ELSE IF k <= 11 THEN ConstStep ELSE IF k <= 17 THEN UnStep ELSE PowStep)
           \/ (Profile = "dense" /\ \E k \in {R(1 .. 16)} : IF k <= 6 THEN MixStep ELSE IF k <= 9 THEN BinStep ELSE IF k <= 11 THEN ConstStep ELSE IF k <= 14 THEN UnStep ELSE PowStep)
           \/ (Profile = "cond" /\ \E k \in {R(1 .. 14)} : IF k <= 5 THEN BinStep ELSE IF k <= 7 THEN ConstStep ELSE IF k <= 8 THEN UnStep ELSE CondStep)
           \/ (Profile = "atom" /\ \E k \in {R(1 .. 13)} : IF k = 13 THEN MixStep ELSE IF k <= 3 THEN BinStep ELSE IF k <= 4 THEN ConstStep ELSE IF k <= 6 THEN UnStep ELSE IF k <= 7 THEN PowStep ELSE CallStep)
           \/ (Profile = "nest" /\ \E k \in {R(1 .. 10)} : IF k <= 2 THEN BinStep ELSE IF k <= 3 THEN ConstStep ELSE IF k <= 5 THEN CondStep ELSE NestStep)
        /\ UNCHANGED <<deps, phase>> /\ tries' = tries + 1
Fail == phase = 1 /\ N < NN /\ tries < 6 * NN /\ tries' = tries + 1 /\ UNCHANGED <<nodes, val, deps, phase>>
Pack(d) == <<d.v, d.g, d.h, d.x>>
\* dependents with many second-order elements are preferred when these matter
Weight(k) == Cardinality({<<i, j>> \in D1 \X D1 : val[k].h[i][j] # Q(0)})
AnyDep == IF R(1 .. 5) = 1 THEN R(1 .. N) ELSE R((IF N > 6 THEN N - 6 ELSE 1) .. N)
Richest(S) == CHOOSE k \in S : \A l \in S : Weight(l) <= Weight(k)
Dep == IF DOrder = 2 /\ R(1 .. 3) > 1 THEN Richest({R(1 .. N) : t \in 1 .. 3} \cup {AnyDep}) ELSE AnyDep
Finish == /\ phase = 1 /\ (N >= NN \/ tries >= 6 * NN) /\ phase' = 2
          /\ deps' = [i \in 1 .. ND |-> Dep]
          /\ UNCHANGED <<nodes, val, tries>>
Next == Start \/ Step \/ Fail \/ Finish
Spec == Init /\ [][Next]_gvars
Emit == phase = 2 => PrintT(<<"GEN", ToJson([n |-> NI, nodes |-> nodes, deps |-> deps, vals |-> [i \in DOMAIN val |-> <<val[i].v, val[i].x>>],
                                             g |-> [i \in 1 .. ND |-> val[deps[i]].g], h |-> [i \in 1 .. ND |-> val[deps[i]].h]])>>)
=============================================================================
