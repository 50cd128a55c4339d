------------------------------ MODULE Session ------------------------------
(* A history of one recorder (CodeHandler): recordings, source generations    *)
(* with options, and resets, in any order (C05, C06, C07, C14, C19).          *)
(* A generation answers for the recording made so far: its meaning is the     *)
(* value of the dependents chosen among the nodes recorded up to then, and    *)
(* depends neither on its options nor on what was generated before.           *)
EXTENDS GraphGen
CONSTANTS NG,      \* generations in a history
          NR,      \* resets at most
          Langs    \* languages to generate
VARIABLES segs,    \* finished segments: [nodes, vals, gens]
          gens,    \* generations of the current segment
          cnt      \* [gen, reset]
svars == <<nodes, val, deps, phase, tries, segs, gens, cnt>>

Bool == {TRUE, FALSE}
Options(lang) == [lang |-> lang,
            maxOps |-> R({0, 0, 1, 2, 3, 5}),                  \* operations per assignment (0: no limit)
            maxAsg |-> R({0, 0, 1, 2, 3}),                     \* assignments per function
            zeroDep |-> R(Bool), reuse |-> R(Bool), ignoreZero |-> R(Bool), plusEq |-> R(1 .. 4) = 1,
            naming |-> R({"array", "array", "array", "custom", "scalar"})]
\* dependents: any nodes, also repeated, constants and independents
DepOf(k) == IF k <= 2 THEN R((IF N > 5 THEN N - 5 ELSE 1) .. N) ELSE IF k = 3 THEN R(1 .. N) ELSE R((IF N > 12 THEN N - 12 ELSE 1) .. N)
RandDeps == [i \in 1 .. R(1 .. ND) |-> DepOf(R(1 .. 4))]

SInit == Init /\ segs = <<>> /\ gens = <<>> /\ cnt = [gen |-> 0, reset |-> 0]
SStart == Start /\ UNCHANGED <<segs, gens, cnt>>
SRecord == (Step \/ Fail) /\ UNCHANGED <<segs, gens, cnt>>
Ready == phase = 1 /\ (N >= NN \/ tries >= 6 * NN)
SGen == /\ phase = 1 /\ N > NI /\ cnt.gen < NG
        /\ (Ready \/ (NG > 1 /\ R(1 .. 6) = 1))
        /\ \E d \in {RandDeps} : \E o \in {Options(R(Langs))} :
             gens' = Append(gens, [upto |-> N, deps |-> d, opts |-> o])
        /\ cnt' = [cnt EXCEPT !.gen = @ + 1]
        /\ UNCHANGED <<nodes, val, deps, phase, tries, segs>>
Segment == [nodes |-> nodes, vals |-> [i \in DOMAIN val |-> <<val[i].v, val[i].x>>], gens |-> gens]
SReset == /\ phase = 1 /\ cnt.reset < NR /\ gens # <<>> /\ R(1 .. 8) = 1
          /\ segs' = Append(segs, Segment) /\ nodes' = <<>> /\ val' = <<>> /\ gens' = <<>> /\ phase' = 0 /\ tries' = 0
          /\ cnt' = [cnt EXCEPT !.reset = @ + 1] /\ UNCHANGED deps
SEnd == /\ Ready /\ cnt.gen >= NG /\ phase' = 2
        /\ segs' = Append(segs, Segment) /\ UNCHANGED <<nodes, val, deps, tries, gens, cnt>>
SNext == SStart \/ SRecord \/ SGen \/ SReset \/ SEnd
SSpec == SInit /\ [][SNext]_svars
SEmit == phase = 2 => PrintT(<<"GEN", ToJson([n |-> NI, route |-> R({"cg", "ad"}), form |-> R(0 .. 9), segs |-> segs])>>)
=============================================================================
