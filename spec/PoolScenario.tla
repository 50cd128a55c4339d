----------------------------- MODULE PoolScenario -----------------------------
(* Generator of client programs for the thread pool: every legal sequence of  *)
(* public calls is a behaviour (TLC -simulate picks some).  Tokens are the     *)
(* replay harness' input format.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen
VARIABLES ops, n, pend, fn, evals, cf, al, dis, st
pv == <<cf, al, dis, st>>
vars == <<ops, n, pend, fn, evals, pv>>
\* pend: jobs may be pending; fn: evaluated functions (id -> number of jobs, 0 if never)
R(S) == RandomElement(S)
Init == ops = <<>> /\ n = -1 /\ pend = FALSE /\ fn = [i \in 0 .. 1 |-> 0] /\ evals = 0
        /\ cf = 2 /\ al = 0 /\ dis = 0 /\ st = 2
Seqs(k) == [1 .. k -> 0 .. (k - 1)]
Perms(k) == {p \in Seqs(k) : \A i, j \in 1 .. k : i # j => p[i] # p[j]}
Dur == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
EDur == {0, 2, 3, 4, 5}
B == {0, 1}
\* (asking for a pool of 0 threads disables it)
\* cf: configured threads, al: threads of the live pool, dis: disabled, st: strategy
First == n = -1 /\ n' = 0 /\ cf' = R(0 .. 5) /\ st' = R(1 .. 3) /\ ops' = <<"threads", cf', "strategy", st'>> /\ UNCHANGED <<pend, fn, evals, al, dis>>
Create == al' = (IF al = 0 /\ dis = 0 THEN cf ELSE al) /\ dis' = (IF al = 0 /\ cf = 0 THEN 1 ELSE dis) /\ UNCHANGED <<cf, st>>
More == n >= 0 /\ n < MaxLen /\ n' = n + 1
AddOne == More /\ ops' = ops \o <<"addone", R({-1} \cup Dur)>> /\ pend' = TRUE /\ Create /\ UNCHANGED <<fn, evals>>
AddRaw == More /\ \E k \in {R(1 .. 5)} :
            ops' = ops \o <<"addraw", k, R({0, 1, 1, 1})>> \o [i \in 1 .. k |-> R(IF R(B) = 1 THEN Dur ELSE {4})]
                       \o <<R({0, 1, 1})>> \o R(Perms(k)) /\ pend' = TRUE /\ Create /\ UNCHANGED <<fn, evals>>
Eval == More /\ evals < 5 /\ evals' = evals + 1 /\ \E f \in {R(0 .. 1)} : \E k \in {IF fn[f] > 0 THEN fn[f] ELSE R(1 .. 5)} :
            /\ ops' = ops \o <<"eval", f, k>> \o [i \in 1 .. k |-> R(EDur)]
            /\ fn' = [fn EXCEPT ![f] = k] /\ pend' = FALSE /\ Create
Wait == More /\ pend /\ ops' = ops \o <<"wait">> /\ pend' = FALSE /\ UNCHANGED <<fn, evals, pv>>
\* k jobs that only end once all k have begun: needs k workers at the same time
Rendez == More /\ ~pend /\ dis = 0 /\ \E m \in {IF al = 0 THEN cf ELSE al} : m >= 1 /\ \E k \in {R(1 .. m)} :
            ops' = ops \o <<"rendez", k, IF st = 1 THEN R({0, 1}) ELSE 0, R({0, 1}), "wait">> /\ UNCHANGED pend /\ Create /\ UNCHANGED <<fn, evals>>
Set(o, S) == More /\ ops' = ops \o <<o, R(S)>> /\ UNCHANGED <<pend, fn, evals, pv>>
Strategy == More /\ st' = R(1 .. 3) /\ ops' = ops \o <<"strategy", st'>> /\ UNCHANGED <<pend, fn, evals, cf, al, dis>>
Disable == More /\ R(1 .. 3) = 1 /\ dis' = R(B) /\ ops' = ops \o <<"disabled", dis'>> /\ UNCHANGED <<pend, fn, evals, cf, al, st>>
Sets == \/ Set("guided", {10, 75, 75, 100, 300}) \/ Set("timeref", {0, 1}) \/ Set("nmeas", {0, 1, 2, 10}) \/ Set("verbose", {0, 1})
Threads == More /\ cf' = R(1 .. 4) /\ ops' = ops \o <<"threads", cf'>> /\ UNCHANGED <<pend, fn, evals, al, dis, st>>
Shutdown == More /\ n > 0 /\ ops' = ops \o <<"shutdown">> /\ pend' = FALSE /\ al' = 0 /\ UNCHANGED <<fn, evals, cf, dis, st>>
Restart == More /\ n > 0 /\ cf' = R(1 .. 4) /\ ops' = ops \o <<"shutdown", "threads", cf'>> /\ pend' = FALSE /\ al' = 0 /\ UNCHANGED <<fn, evals, dis, st>>
Prepare == More /\ n = 0 /\ ops' = ops \o <<"prepare">> /\ al' = (IF al = 0 THEN cf ELSE al) /\ dis' = (IF al = 0 /\ cf = 0 THEN 1 ELSE dis) /\ UNCHANGED <<pend, fn, evals, cf, st>>
Done == n = MaxLen /\ n' = n + 1
        /\ ops' = ops \o (IF R(1 .. 4) = 1 THEN <<>> ELSE IF R(1 .. 3) = 1 THEN <<"shutdown">> ELSE <<"wait", "shutdown">>)
        /\ UNCHANGED <<pend, fn, evals, pv>>
Next == First \/ AddOne \/ AddRaw \/ AddRaw \/ Eval \/ Eval \/ Wait \/ Wait \/ Rendez \/ Strategy \/ Strategy \/ Disable \/ Sets \/ Threads \/ Shutdown \/ Restart \/ Prepare \/ Done
Spec == Init /\ [][Next]_vars
Emit == n = MaxLen + 1 => PrintT(<<"GEN", ToJson(ops)>>)
=============================================================================
