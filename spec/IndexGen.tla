------------------------------ MODULE IndexGen ------------------------------
(* Index maps, grown point by point: with small constants every map, under   *)
(* simulation long maps with linear stretches, gaps, plateaus and outliers.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS XMax, YMax, Len1, Shape     \* Shape: "all" (every map) or "runs" (long, structured)
VARIABLES m, dy, gap, fin
gvars == <<m, dy, gap, fin>>
GInit == m = <<>> /\ dy = 0 /\ gap = 1 /\ fin = FALSE
LastX == IF m = <<>> THEN -1 ELSE m[Len(m)][1]
LastY == IF m = <<>> THEN 0 ELSE m[Len(m)][2]
AnyPoint == /\ Shape = "all"
       /\ \E x \in LastX + 1 .. XMax, y \in 0 .. YMax : m' = Append(m, <<x, y>>)
       /\ UNCHANGED <<dy, gap>>
\* go on in a straight line, or start another one
Step == /\ Shape = "runs" /\ m # <<>>
        /\ LET x == LastX + gap y == LastY + dy IN x <= XMax /\ y >= 0 /\ y <= YMax /\ m' = Append(m, <<x, y>>)
        /\ UNCHANGED <<dy, gap>>
Turn == /\ Shape = "runs"
        /\ \E d \in {RandomElement({-3, -2, -1, 0, 0, 1, 2, 3, 7})} : \E g \in {RandomElement({1, 2, 3, 5})} : \E g1 \in {RandomElement(1 .. 4)} : \E y \in {RandomElement(0 .. YMax)} : \E keep \in {RandomElement(BOOLEAN)} :
             LET x == IF m = <<>> THEN RandomElement({0, 0, 1, 2, 5}) ELSE LastX + (IF keep THEN gap ELSE g1) IN
             x <= XMax /\ m' = Append(m, <<x, IF keep /\ m # <<>> THEN LastY ELSE y>>) /\ dy' = d /\ gap' = IF keep THEN gap ELSE g
\* every key is one further than the previous one: the map is also given as a vector
Stop == m # <<>> /\ fin' = TRUE /\ UNCHANGED <<m, dy, gap>>
GNext == fin = FALSE /\ ((Len(m) < Len1 /\ (AnyPoint \/ Step \/ Step \/ Step \/ Turn) /\ fin' = FALSE) \/ ((Shape = "all" \/ Len(m) >= 3) /\ Stop))
GSpec == GInit /\ [][GNext]_gvars
GEmit == fin => PrintT(<<"GEN", ToJson(m)>>)
=============================================================================
