----------------------------- MODULE IndexPattern -----------------------------
(* Index patterns: finite maps from one or two loop indexes to an index,     *)
(* what each kind of pattern means, and the detection of linear sections as  *)
(* a state machine over every small map (the design that is model-checked).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- meaning of patterns (records, as the real objects are written) ---- *)
LinAt(p, x) == ((x - p.off) \div p.dx) * p.dy + p.b
Lookup(tab, x) == LET S == {i \in 1 .. Len(tab) : tab[i][1] = x} IN IF S = {} THEN -1 ELSE tab[CHOOSE i \in S : TRUE][2]
Lookup2(tab, x, y) == LET S == {i \in 1 .. Len(tab) : tab[i][1] = x /\ tab[i][2] = y} IN
                      IF S = {} THEN -1 ELSE tab[CHOOSE i \in S : TRUE][3]
\* the section that covers x: the last one that starts at or before it (the first one covers everything below)
SecOf(secs, x) == LET S == {i \in 1 .. Len(secs) : secs[i].start <= x} IN IF S = {} THEN 1 ELSE CHOOSE i \in S : \A k \in S : k <= i
SecAt(secs, x) == LinAt(secs[SecOf(secs, x)].p, x)
At1(p, x) == CASE p.t = "linear" -> LinAt(p, x)
               [] p.t = "sectioned" -> SecAt(p.secs, x)
               [] p.t = "random1" -> Lookup(p.tab, x)
At2(p, x, y) == CASE p.t = "plane" -> (IF p.p1.t = "none" THEN 0 ELSE At1(p.p1, x)) + (IF p.p2.t = "none" THEN 0 ELSE At1(p.p2, y))
                  [] p.t = "random2" -> Lookup2(p.tab, x, y)

WellFormed1(p) == CASE p.t = "linear" -> p.dx >= 1
                    [] p.t = "sectioned" -> Len(p.secs) > 1 /\ \A i \in 1 .. Len(p.secs) :
                          p.secs[i].p.t = "linear" /\ p.secs[i].p.dx >= 1 /\ (i > 1 => p.secs[i - 1].start < p.secs[i].start)
                    [] p.t = "random1" -> TRUE
                    [] OTHER -> FALSE

(* ---- the contract: a detected pattern reproduces the map it was built from ---- *)
Reproduces1(p, m) == WellFormed1(p) /\ \A i \in 1 .. Len(m) : At1(p, m[i][1]) = m[i][2]
Reproduces2(p, m) == \A i \in 1 .. Len(m) : At2(p, m[i][1], m[i][2]) = m[i][3]
\* q is p shifted by k
Shifted(q, p, k, m) == \A i \in 1 .. Len(m) : At1(q, m[i][1]) = At1(p, m[i][1]) + k
\* arrays: element y of the block that starts at element k of an array which p places
Block(e, p, k, m) == \A i \in 1 .. Len(m), y \in 0 .. 4 : At2(e, m[i][1], y) = At1(p, m[i][1]) - k + y

(* ---- detection of linear sections, one section per step ---- *)
CONSTANTS XS, YS, MaxSec
VARIABLES m, pos, secs, prev, st
vars == <<m, pos, secs, prev, st>>

Keys == 0 .. XS - 1
Maps == {f \in UNION {[D -> 0 .. YS - 1] : D \in SUBSET Keys} : DOMAIN f # {}}
SeqOf(f) == LET D == DOMAIN f IN [i \in 1 .. Cardinality(D) |->
               LET x == CHOOSE x \in D : Cardinality({z \in D : z < x}) = i - 1 IN <<x, f[x]>>]
DInit == m \in {SeqOf(f) : f \in Maps} /\ pos = 1 /\ secs = <<>> /\ prev = 1 /\ st = "run"

Lin(off, dy, dx, b) == [t |-> "linear", off |-> off, dy |-> dy, dx |-> dx, b |-> b]
\* the linear function through the point at pos and the next one
LineAt(i) == IF i = Len(m) THEN Lin(0, 0, 1, m[i][2]) ELSE
             LET dy == m[i + 1][2] - m[i][2] x0 == m[i][1] dx == m[i + 1][1] - x0 IN
             IF dy = 0 THEN Lin(0, 0, 1, m[i][2]) ELSE Lin(x0 % dx, dy, dx, m[i][2] - (x0 \div dx) * dy)
EndOf(i, l) == LET S == {k \in i + 1 .. Len(m) : LinAt(l, m[k][1]) # m[k][2]} IN
               IF S = {} THEN Len(m) + 1 ELSE CHOOSE k \in S : \A z \in S : k <= z
\* a constant section may take the points at the end of the previous section
Taken(i, l) == IF l.dy # 0 \/ secs = <<>> THEN i ELSE
               LET q == secs[Len(secs)].p IN
               CHOOSE k \in 1 .. i : (\A z \in k .. i - 1 : LinAt(q, m[z][1]) = l.b) /\ (k = 1 \/ LinAt(q, m[k - 1][1]) # l.b)
Section ==
  /\ st = "run" /\ pos <= Len(m)
  /\ LET l == LineAt(pos) s == Taken(pos, l) e == EndOf(pos, l)
         keep == IF secs # <<>> /\ s = prev + 1   \* one point is left in the previous section: make it constant
                 THEN [secs EXCEPT ![Len(secs)].p = Lin(@.off, 0, @.dx, LinAt(@, m[prev][1]))] ELSE secs IN
     /\ secs' = Append(keep, [start |-> m[s][1], p |-> l])
     /\ pos' = e /\ prev' = s
     /\ st' = IF Len(secs') = MaxSec /\ e <= Len(m) THEN "over" ELSE IF e > Len(m) THEN "done" ELSE "run"
  /\ UNCHANGED m
DNext == Section
DSpec == DInit /\ [][DNext]_vars /\ WF_vars(DNext)

Covered == \A i \in 1 .. pos - 1 : SecAt(secs, m[i][1]) = m[i][2]
Ordered == \A i \in 1 .. Len(secs) - 1 : secs[i].start < secs[i + 1].start
FirstCovers == secs # <<>> => secs[1].start = m[1][1]
Ends == <>(st \in {"done", "over"})
=============================================================================
