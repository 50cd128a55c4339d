------------------------------- MODULE Paths -------------------------------
(* Searches of recorded graphs (C16).  A recording is a sequence of nodes,    *)
(* each with the sequence of its arguments: earlier nodes, or 0 for a number. *)
(* A path from r to t is the chain of argument positions that leads from r    *)
(* down to t.  Searches may be asked at any time, in between recording and    *)
(* generation of code.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NN,     \* nodes to record
          Small,  \* every recording of NN nodes with up to two arguments, and every search
          NQ      \* searches
VARIABLES g, log, phase
vars == <<g, log, phase>>
N == Len(g)
R(S) == RandomElement(IF phase >= 0 THEN S ELSE {})
Args(n) == {i \in DOMAIN g[n] : g[n][i] # 0}

(* ---- the paths: chains of argument positions ---- *)
RECURSIVE Suffixes(_, _)
Suffixes(n, t) == IF n = t THEN {<<>>} ELSE UNION {{<<<<g[n][i], i>>>> \o p : p \in Suffixes(g[n][i], t)} : i \in Args(n)}
Paths(r, t) == {<<<<r, 0>>>> \o p : p \in Suffixes(r, t)}

(* ---- the operations on them, by reachability alone ---- *)
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup {g[n][i] : <<n, i>> \in {<<n, i>> \in S \X (1 .. 4) : i \in DOMAIN g[n] /\ g[n][i] # 0}} IN IF T = S THEN S ELSE Closure(T)
Below(n) == Closure({n})
On(r, t) == {n \in Below(r) : t \in Below(n)}
Leads(n, t) == IF n = t THEN {} ELSE {i \in Args(n) : t \in Below(g[n][i])}
\* number of paths, without enumerating them
RECURSIVE SumOf(_, _), Count(_, _)
Count(n, t) == IF n = t THEN 1 ELSE SumOf(Args(n), [i \in Args(n) |-> <<g[n][i], t>>])
SumOf(S, f) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Count(f[i][1], f[i][2]) + SumOf(S \ {i}, f)
RECURSIVE SumOver(_, _)
SumOver(S, t) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN (LET k == Cardinality(Leads(n, t)) IN IF k > 1 THEN k - 1 ELSE 0) + SumOver(S \ {n}, t)
Bifurcations(r, t) == SumOver(On(r, t), t)

(* ---- the two accounts agree ---- *)
Agree == \A r, t \in 1 .. N :
  /\ Cardinality(Paths(r, t)) = Count(r, t)
  /\ {p[k][1] : <<p, k>> \in {<<p, k>> \in Paths(r, t) \X (1 .. N) : k <= Len(p)}} = On(r, t)
  /\ \A p \in Paths(r, t) : p[1][1] = r /\ p[Len(p)][1] = t /\ \A k \in 2 .. Len(p) : g[p[k - 1][1]][p[k][2]] = p[k][1]
  /\ \A n \in On(r, t) : \A i \in Leads(n, t) : \E p \in Paths(r, t) : \E k \in 1 .. (Len(p) - 1) : p[k][1] = n /\ p[k + 1] = <<g[n][i], i>>
  /\ (Bifurcations(r, t) = 0) = (Count(r, t) <= 1)

(* ---- recordings and searches ---- *)
Init == g = <<>> /\ log = <<>> /\ phase = 0
AddSmall == /\ Small /\ phase = 0 /\ N < NN
            /\ \E k \in 0 .. 2 : \E a \in [1 .. k -> 0 .. N] : g' = Append(g, a)
            /\ UNCHANGED <<log, phase>>
AllSearches == [q \in 1 .. (N * N) |-> LET r == ((q - 1) \div N) + 1 t == ((q - 1) % N) + 1 IN
                  [q |-> "all", n |-> N, r |-> r, t |-> t, max |-> 0, paths |-> Paths(r, t), on |-> {<<n, Leads(n, t)>> : n \in On(r, t)}, bif |-> Bifurcations(r, t)]]
EndSmall == Small /\ phase = 0 /\ N = NN /\ phase' = 1 /\ log' = AllSearches /\ UNCHANGED g
\* mostly recent nodes, so that there are many paths
Recent == IF N = 0 THEN 0 ELSE IF R(1 .. 4) > 1 THEN R((IF N > 3 THEN N - 3 ELSE 1) .. N) ELSE R(0 .. N)
Add == /\ ~Small /\ phase = 0 /\ N < NN
       /\ \E k \in {IF N < 2 THEN R(0 .. 2) ELSE R({0, 1, 1, 2, 2, 2, 2, 4})} : g' = Append(g, [i \in 1 .. k |-> Recent])
       /\ UNCHANGED <<log, phase>>
Ask == /\ ~Small /\ phase = 0 /\ N > 2 /\ Len(log) < NQ /\ (N = NN \/ R(1 .. 5) = 1)
       /\ \E r \in {IF R(1 .. 3) > 1 THEN R((IF N > 3 THEN N - 3 ELSE 1) .. N) ELSE R(1 .. N)} : \E t \in {R(1 .. r)} : \E k \in {R({"paths", "paths", "graph", "limited", "gen"})} :
            /\ k = "gen" \/ Count(r, t) <= 60
            /\ \E m \in {IF k = "limited" THEN R(0 .. 3) ELSE R({0, 1, 2, 3, 4, 5, Count(r, t), 1000})} :
               log' = Append(log, [q |-> k, n |-> N, r |-> r, t |-> t, max |-> m, paths |-> IF k = "gen" THEN {} ELSE Paths(r, t),
                                   on |-> IF k = "gen" THEN {} ELSE {<<n, Leads(n, t)>> : n \in On(r, t)}, bif |-> IF k = "gen" THEN 0 ELSE Bifurcations(r, t)])
       /\ UNCHANGED <<g, phase>>
Retry == ~Small /\ phase = 0 /\ UNCHANGED vars
End == ~Small /\ phase = 0 /\ N = NN /\ Len(log) >= NQ /\ phase' = 1 /\ UNCHANGED <<g, log>>
Next == AddSmall \/ EndSmall \/ Add \/ Ask \/ Retry \/ End
Spec == Init /\ [][Next]_vars
Emit == phase = 1 => PrintT(<<"GEN", ToJson([g |-> g, log |-> log])>>)
=============================================================================
