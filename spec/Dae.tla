-------------------------------- MODULE Dae --------------------------------
(* Structural index reduction of DAEs (C17).  A system has equations and      *)
(* unknowns; every unknown is a chain x, x', x'', ... of which the model      *)
(* declares the orders 0 .. decl.  sig[i][j] is the highest order of unknown  *)
(* j in equation i (-1: absent), c[i] how often equation i has been           *)
(* differentiated.  Reduction differentiates minimally singular sets of       *)
(* equations until the equations determine the highest derivatives.           *)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS NE,     \* equations (at most, when generating)
          MaxO,   \* highest order that is declared
          Small   \* every structure of NE equations and unknowns
VARIABLES sig, decl, c, sys, phase
vars == <<sig, decl, c, sys, phase>>
R(S) == RandomElement(IF phase >= 0 THEN S ELSE {})
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m

(* ---- structure ---- *)
Eqs == DOMAIN sig
Unk1 == DOMAIN decl
High(d, k, j) == MaxOf({d[j]} \cup {sig[i][j] + k[i] : i \in {i \in Eqs : sig[i][j] >= 0}})
Nb(d, k, S) == {j \in Unk1 : \E i \in S : sig[i][j] >= 0 /\ sig[i][j] + k[i] = High(d, k, j)}
Deficient(d, k, S) == Cardinality(Nb(d, k, S)) < Cardinality(S)
Feasible(d, k) == \A S \in SUBSET Eqs : ~Deficient(d, k, S)          \* Hall: the highest derivatives can be matched
MinDef(d, k) == {S \in SUBSET Eqs : Deficient(d, k, S) /\ \A i \in S : ~Deficient(d, k, S \ {i})}
Singular == \E S \in SUBSET Eqs : Cardinality({j \in Unk1 : \E i \in S : sig[i][j] >= 0}) < Cardinality(S)
Bump(k, S) == [i \in Eqs |-> IF i \in S THEN k[i] + 1 ELSE k[i]]
RECURSIVE Reduce(_, _)
Reduce(d, k) == LET m == MinDef(d, k) IN IF m = {} THEN k ELSE Reduce(d, Bump(k, CHOOSE S \in m : TRUE))

(* ---- the machine on every small structure ---- *)
Bound == Cardinality(Eqs) * (MaxO + 1)
InitSmall == /\ decl \in [1 .. NE -> 0 .. MaxO] /\ \A j \in 1 .. (NE - 1) : decl[j] <= decl[j + 1]
             /\ sig \in [1 .. NE -> [1 .. NE -> -1 .. MaxO]] /\ \A i, j \in 1 .. NE : sig[i][j] <= decl[j]
             /\ c = [i \in 1 .. NE |-> 0] /\ sys = <<>> /\ phase = 0
Differentiate == /\ Small /\ \A i \in Eqs : c[i] <= Bound
                 /\ \E S \in MinDef(decl, c) : c' = Bump(c, S) /\ UNCHANGED <<sig, decl, sys, phase>>
Terminates == ~Singular => \A i \in Eqs : c[i] <= Bound
Refused == Singular => MinDef(decl, c) # {}                            \* would never end
Least == \A k \in [Eqs -> 0 .. 3] : Feasible(decl, k) => \A i \in Eqs : c[i] <= k[i]
Unique == (~Singular /\ MinDef(decl, c) = {}) => c = Reduce(decl, [i \in Eqs |-> 0])
\* the derivatives needed for an ODE: every unknown is taken for a state
OdeDecl == [j \in Unk1 |-> Max2(decl[j], 1)]
OdeAtMostOneMore == (~Singular /\ MinDef(decl, c) = {}) =>
  LET o == Reduce(OdeDecl, [i \in Eqs |-> 0]) IN \A i \in Eqs : c[i] <= o[i] /\ o[i] <= c[i] + 1

(* ---- concrete systems: equations with values and total time derivatives ---- *)
\* expressions: <<"v", slot>>, <<"c", n>>, <<op, a, b>>;  slots: [k, u, o]
RECURSIVE SumQ(_, _)
SumQ(f, n) == IF n = 0 THEN Q(0) ELSE QAdd(SumQ(f, n - 1), f[n])
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
\* Taylor coefficients 0 .. K (at 1 .. K + 1)
RECURSIVE Jet(_, _), DivJet(_, _, _)
DivJet(a, b, n) == \* first n coefficients of a / b
  IF n = 0 THEN <<>> ELSE LET q == DivJet(a, b, n - 1) IN Append(q, QDiv(QSub(a[n], SumQ([m \in 1 .. (n - 1) |-> QMul(q[m], b[n - m + 1])], n - 1)), b[1]))
Jet(e, K) ==
  CASE e[1] = "c" -> [m \in 1 .. (K + 1) |-> IF m = 1 THEN Q(e[2]) ELSE Q(0)]
    [] e[1] = "v" -> LET s == sys.slots[e[2]] IN
         [m \in 1 .. (K + 1) |-> CASE s.k = "p" -> IF m = 1 THEN Q(s.o) ELSE Q(0)
                                   [] s.k = "t" -> IF m = 1 THEN Q(s.o) ELSE IF m = 2 THEN Q(1) ELSE Q(0)
                                   [] OTHER -> Norm(sys.val[s.u][s.o + m], Fact(m - 1))]
    [] OTHER -> LET a == Jet(e[2], K) b == Jet(e[3], K) IN
         CASE e[1] = "+" -> [m \in 1 .. (K + 1) |-> QAdd(a[m], b[m])]
           [] e[1] = "-" -> [m \in 1 .. (K + 1) |-> QSub(a[m], b[m])]
           [] e[1] = "*" -> [m \in 1 .. (K + 1) |-> SumQ([n \in 1 .. m |-> QMul(a[n], b[m - n + 1])], m)]
           [] OTHER -> DivJet(a, b, K + 1)
Derivs(e, K) == LET j == Jet(e, K) IN [m \in 1 .. (K + 1) |-> QMul(j[m], Q(Fact(m - 1)))]
RECURSIVE VarsOf(_)
VarsOf(e) == CASE e[1] = "c" -> {} [] e[1] = "v" -> {e[2]} [] OTHER -> VarsOf(e[2]) \cup VarsOf(e[3])
SigOf(e) == [j \in Unk1 |-> MaxOf({-1} \cup {sys.slots[s].o : s \in {s \in VarsOf(e) : sys.slots[s].k = "x" /\ sys.slots[s].u = j}})]

(* ---- generation ---- *)
InitGen == sig = <<>> /\ decl = <<>> /\ c = <<>> /\ sys = [slots |-> <<>>, val |-> <<>>, eqs |-> <<>>, todo |-> {}, ne |-> 0] /\ phase = 0
Layout == /\ phase = 0
          /\ \E n \in {R(1 .. NE)} : \E d \in {[j \in 1 .. n |-> IF R(1 .. 6) = 1 THEN MaxO ELSE R({0, 1})]} : \E np \in {R({0, 0, 1, 2})} : \E nt \in {R({0, 1})} : \E x \in {R(1 .. 16)} :
             /\ decl' = d
             /\ sys' = [slots |-> <<>>, val |-> [j \in 1 .. n |-> [m \in 1 .. 24 |-> IF m <= d[j] + 1 THEN R({-2, -1, 1, 2, 3}) ELSE R(-2 .. 3)]], eqs |-> <<>>,
                        todo |-> {[k |-> "x", u |-> p[1], o |-> p[2]] : p \in {p \in (1 .. n) \X (0 .. MaxO) : p[2] <= d[p[1]]}}
                                  \cup {[k |-> "p", u |-> q, o |-> 2 * q - 3] : q \in 1 .. np} \cup (IF nt = 1 THEN {[k |-> "t", u |-> 0, o |-> 2]} ELSE {}),
                        ne |-> IF x = 1 THEN n + 1 ELSE IF x = 2 /\ n > 1 THEN n - 1 ELSE n]
          /\ phase' = 1 /\ UNCHANGED <<sig, c>>
Slot == /\ phase = 1 /\ sys.todo # {}
        /\ \E s \in {R(sys.todo)} : sys' = [sys EXCEPT !.slots = Append(@, s), !.todo = @ \ {s}]
        /\ UNCHANGED <<sig, decl, c, phase>>
SlotsOf(j) == {s \in DOMAIN sys.slots : sys.slots[s].k = "x" /\ sys.slots[s].u = j}
V == <<"v", R(DOMAIN sys.slots)>>
\* equations mostly use their own unknown and its neighbours, in any order
W(i) == IF i \in Unk1 /\ R(1 .. 3) > 1 THEN <<"v", R(SlotsOf(i))>> ELSE V
Term(a, b, k) == CASE k = 1 -> a [] k = 2 -> <<"*", a, b>> [] k = 3 -> <<"/", a, b>> [] k = 4 -> <<"*", <<"c", 2>>, a>> [] OTHER -> <<"*", <<"*", a, b>>, a>>
Equation == /\ phase = 1 /\ sys.todo = {} /\ Len(sys.eqs) < sys.ne
            /\ \E i \in {Len(sys.eqs) + 1} :
               \E a1 \in {W(i)} : \E b1 \in {V} : \E k1 \in {R({1, 1, 1, 2, 3, 4, 5})} : \E a2 \in {V} : \E b2 \in {V} : \E k2 \in {R({0, 0, 1, 1, 2, 4})} :
               \E a3 \in {V} : \E k3 \in {R({0, 0, 1, 4})} : \E o \in {R({"+", "-"})} : \E cc \in {R({0, 0, 1, 3})} :
                 LET e1 == Term(a1, b1, k1) e2 == IF k2 = 0 THEN e1 ELSE <<o, e1, Term(a2, b2, k2)>> e3 == IF k3 = 0 THEN e2 ELSE <<"+", e2, Term(a3, a3, k3)>>
                     e == IF cc = 0 THEN e3 ELSE <<"-", e3, <<"c", cc>>>> IN
                 sys' = [sys EXCEPT !.eqs = Append(@, e)] /\ sig' = Append(sig, SigOf(e))
            /\ UNCHANGED <<decl, c, phase>>
Finish == /\ phase = 1 /\ sys.todo = {} /\ sys.ne > 0 /\ Len(sys.eqs) = sys.ne /\ phase' = 2
          /\ c' = IF sys.ne # Len(decl) \/ Singular THEN <<>> ELSE Reduce(decl, [i \in Eqs |-> 0])
          /\ UNCHANGED <<sig, decl, sys>>
Next == Differentiate \/ (~Small /\ (Layout \/ Slot \/ Equation \/ Finish \/ (phase < 2 /\ UNCHANGED vars)))
Init == IF Small THEN InitSmall ELSE InitGen
Spec == Init /\ [][Next]_vars
Emit == phase = 2 => PrintT(<<"GEN", ToJson(
  IF c = <<>> THEN [slots |-> sys.slots, val |-> sys.val, eqs |-> sys.eqs, sig |-> sig, decl |-> decl, c |-> <<>>]
  ELSE LET o == Reduce(OdeDecl, [i \in Eqs |-> 0]) IN
       [slots |-> sys.slots, val |-> sys.val, eqs |-> sys.eqs, sig |-> sig, decl |-> decl, c |-> c, ode |-> o,
        high |-> [j \in Unk1 |-> High(decl, c, j)],
        der |-> [i \in Eqs |-> Derivs(sys.eqs[i], o[i])]])>>)
=============================================================================
