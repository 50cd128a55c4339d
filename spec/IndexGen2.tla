------------------------------ MODULE IndexGen2 ------------------------------
(* Maps from two loop indexes: any small one, or sums of two one-dimensional *)
(* maps on part of a grid, with an outlier or without.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS NX, NY, ZMax, Shape2
VARIABLES m, f, g, fin
gvars == <<m, f, g, fin>>
Vals == 0 .. ZMax
Shapes(n) == LET a == RandomElement(0 .. 6) d == RandomElement(-2 .. 3) k == RandomElement(0 .. n) IN
             [i \in 0 .. n - 1 |-> IF i < k THEN a + 20 + d * i ELSE a + 20 + RandomElement({d * i, a, 0})]
GInit == m = <<>> /\ f = <<>> /\ g = <<>> /\ fin = FALSE
Draw == /\ f = <<>> /\ Shape2 = "sums" /\ f' = Shapes(RandomElement({NX})) /\ g' = Shapes(RandomElement({NY})) /\ UNCHANGED <<m, fin>>
Next2 == IF m = <<>> THEN <<0, 0>> ELSE LET l == m[Len(m)] IN IF l[2] + 1 < NY THEN <<l[1], l[2] + 1>> ELSE <<l[1] + 1, 0>>
After(p) == {q \in (0 .. NX - 1) \X (0 .. NY - 1) : q[1] > p[1] \/ (q[1] = p[1] /\ q[2] >= p[2])}
AddAll == /\ Shape2 = "all" /\ \E q \in After(Next2), z \in Vals : m' = Append(m, <<q[1], q[2], z>>) /\ UNCHANGED <<f, g, fin>>
AddSum == /\ Shape2 = "sums" /\ f # <<>> /\ After(Next2) # {}
          /\ \E q \in {IF RandomElement(1 .. 5) > 1 THEN Next2 ELSE RandomElement(After(Next2))} :
             \E o \in {RandomElement(1 .. 25)} :
             m' = Append(m, <<q[1], q[2], IF o = 1 THEN RandomElement(Vals) ELSE f[q[1]] + g[q[2]]>>) /\ UNCHANGED <<f, g, fin>>
Stop == m # <<>> /\ (Shape2 = "all" \/ After(Next2) = {} \/ RandomElement(1 .. 20) = 1) /\ fin' = TRUE /\ UNCHANGED <<m, f, g>>
GNext == fin = FALSE /\ (Draw \/ (Len(m) < NX * NY /\ (AddAll \/ AddSum)) \/ Stop)
GSpec == GInit /\ [][GNext]_gvars
GEmit == fin => PrintT(<<"GEN", ToJson(m)>>)
=============================================================================
