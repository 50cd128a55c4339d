----------------------------- MODULE ThreadPool -----------------------------
(* The design of the pool (pthread_pool.c) with one action per critical      *)
(* section or shared read: queue of jobs, queue of prepared work groups,     *)
(* binary semaphore, counters of alive/working threads, the idle condition.  *)
(* Checked: refinement of PoolContract, exactly-once, the wait barrier, no   *)
(* memory used after release, and (under fairness) that calls return.        *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS W,            \* number of workers
          MaxJob,       \* jobs 0..MaxJob
          MaxOps,       \* client operations
          PullGroupsAlways, \* TRUE: the repaired pull; FALSE: groups only while static
          JoinAtDestroy     \* TRUE: the repaired destroy
Th == 1 .. W
VARIABLES
  pc, grp,                       \* workers: program counter and remaining jobs of the current group
  q, groups, strat,              \* queue (len/front/rear), prepared groups, strategy
  semv, semw, semn,              \* binary semaphore: value, sleeping, notified
  tl, working, alive, keep,      \* thcount lock owner (0: client, -1 free), counters, keepalive
  idleN,                         \* the client's sleep on the idle condition was notified
  cpc, exists, freed, nops, nj,
  sub, started, done, dropped, by, live, call
vars == <<pc, grp, q, groups, strat, semv, semw, semn, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj,
          sub, started, done, dropped, by, live, call>>
pool == <<q, groups, strat, semv, semw, semn>>
abs == <<sub, started, done, dropped, by, live, call>>
C == INSTANCE PoolContract WITH cfg <- W, disabled <- FALSE
Idle == [op |-> "none"]

Init ==
  /\ pc = [t \in Th |-> "none"] /\ grp = [t \in Th |-> <<>>]
  /\ q = <<>> /\ groups = <<>> /\ strat = "dyn"
  /\ semv = 0 /\ semw = {} /\ semn = {}
  /\ tl = -1 /\ working = 0 /\ alive = 0 /\ keep = FALSE /\ idleN = FALSE
  /\ cpc = "idle" /\ exists = FALSE /\ freed = FALSE /\ nops = 0 /\ nj = 0
  /\ sub = {} /\ started = {} /\ done = {} /\ dropped = {} /\ by = <<>> /\ live = {} /\ call = Idle

Post == /\ semv' = 1
        /\ \/ semw = {} /\ UNCHANGED <<semw, semn>>
           \/ \E t \in semw : semw' = semw \ {t} /\ semn' = semn \cup {t}
PostAll == semv' = 1 /\ semn' = semn \cup semw /\ semw' = {}

\* ---------------------------------------------------------------- workers
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
WStart(t) == pc[t] = "start" /\ tl = -1 /\ alive' = alive + 1 /\ Go(t, "loop")
  /\ UNCHANGED <<grp, pool, tl, working, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WLoop(t) == pc[t] = "loop" /\ Go(t, IF keep THEN "bwait" ELSE "exit")
  /\ UNCHANGED <<grp, pool, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WSem(t) == /\ pc[t] = "bwait"
           /\ IF semv = 1 THEN semv' = 0 /\ Go(t, "woken") /\ UNCHANGED semw
                          ELSE semw' = semw \cup {t} /\ Go(t, "bsleep") /\ UNCHANGED semv
           /\ UNCHANGED <<grp, q, groups, strat, semn, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WWake(t) == pc[t] = "bsleep" /\ t \in semn /\ semn' = semn \ {t} /\ Go(t, "bwait")
  /\ UNCHANGED <<grp, q, groups, strat, semv, semw, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WWoken(t) == pc[t] = "woken" /\ Go(t, IF keep THEN "inc" ELSE "exit")
  /\ UNCHANGED <<grp, pool, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WInc(t) == pc[t] = "inc" /\ tl = -1 /\ working' = working + 1 /\ Go(t, "ploop")
  /\ UNCHANGED <<grp, pool, tl, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WPLoop(t) == pc[t] = "ploop" /\ Go(t, IF keep THEN "pull" ELSE "dec")
  /\ UNCHANGED <<grp, pool, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WPull(t) ==
  /\ pc[t] = "pull"
  /\ \/ /\ groups # <<>> /\ (PullGroupsAlways \/ strat = "static")
        /\ grp' = [grp EXCEPT ![t] = Head(groups)] /\ groups' = Tail(groups) /\ UNCHANGED q
        /\ Go(t, "run")
     \/ /\ ~(groups # <<>> /\ (PullGroupsAlways \/ strat = "static"))
        /\ IF q = <<>> THEN UNCHANGED <<q, grp>> /\ Go(t, "dec")
           ELSE \* one job (dynamic) or several (guided)
                \E n \in 1 .. (IF strat = "guided" THEN Len(q) ELSE 1) :
                   grp' = [grp EXCEPT ![t] = SubSeq(q, 1, n)] /\ q' = SubSeq(q, n + 1, Len(q)) /\ Go(t, "run")
        /\ UNCHANGED groups
  /\ IF q' # <<>> \/ groups' # <<>> THEN Post ELSE UNCHANGED <<semv, semw, semn>>
  /\ UNCHANGED <<strat, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WRun(t) ==
  /\ pc[t] = "run"
  /\ IF grp[t] = <<>> THEN Go(t, "ploop") /\ UNCHANGED <<started, by>>
     ELSE LET j == Head(grp[t]) IN
          /\ started' = started \cup {j} /\ by' = [k \in started \cup {j} |-> IF k = j THEN t ELSE by[k]]
          /\ Go(t, "end")
  /\ UNCHANGED <<grp, pool, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, sub, done, dropped, live, call>>
WEnd(t) ==
  /\ pc[t] = "end"
  /\ done' = done \cup {Head(grp[t])} /\ grp' = [grp EXCEPT ![t] = Tail(grp[t])] /\ Go(t, "run")
  /\ UNCHANGED <<pool, tl, working, alive, keep, idleN, cpc, exists, freed, nops, nj, sub, started, dropped, by, live, call>>
WDec(t) ==
  /\ pc[t] = "dec" /\ tl = -1
  /\ working' = working - 1
  /\ idleN' = IF working = 1 THEN TRUE ELSE idleN
  /\ Go(t, "loop")
  /\ UNCHANGED <<grp, pool, tl, alive, keep, cpc, exists, freed, nops, nj, abs>>
WExit(t) == pc[t] = "exit" /\ tl = -1 /\ tl' = t /\ alive' = alive - 1 /\ Go(t, "unlock")
  /\ UNCHANGED <<grp, pool, working, keep, idleN, cpc, exists, freed, nops, nj, abs>>
WUnlock(t) == pc[t] = "unlock" /\ tl' = -1 /\ live' = live \ {t} /\ Go(t, "gone")
  /\ UNCHANGED <<grp, pool, working, alive, keep, idleN, cpc, exists, freed, nops, nj, sub, started, done, dropped, by, call>>
Worker(t) == WStart(t) \/ WLoop(t) \/ WSem(t) \/ WWake(t) \/ WWoken(t) \/ WInc(t) \/ WPLoop(t) \/ WPull(t)
             \/ WRun(t) \/ WEnd(t) \/ WDec(t) \/ WExit(t) \/ WUnlock(t)

\* ---------------------------------------------------------------- client
Op == cpc = "idle" /\ nops < MaxOps /\ nops' = nops + 1
CAdd(n) == \* submission: the pool is created first when needed
  /\ Op /\ nj + n <= MaxJob + 1
  /\ call' = [op |-> "add", new |-> nj .. (nj + n - 1), off |-> FALSE]
  /\ sub' = sub \cup (nj .. (nj + n - 1)) /\ nj' = nj + n
  /\ cpc' = IF exists THEN "push" ELSE "create"
  /\ UNCHANGED <<pc, grp, pool, tl, working, alive, keep, idleN, exists, freed, started, done, dropped, by, live>>
CCreate == \* one thread per step (the contract sees each of them)
  /\ cpc = "create" /\ live # Th
  /\ LET t == CHOOSE t \in Th : t \notin live IN live' = live \cup {t} /\ Go(t, "start")
  /\ keep' = TRUE /\ freed' = FALSE
  /\ UNCHANGED <<grp, pool, tl, working, alive, idleN, cpc, exists, nops, nj, sub, started, done, dropped, by, call>>
CSpin == cpc = "create" /\ live = Th /\ alive = W /\ exists' = TRUE /\ cpc' = "push"
  /\ UNCHANGED <<pc, grp, pool, tl, working, alive, keep, idleN, freed, nops, nj, abs>>
SeqOf(S) == LET RECURSIVE f(_) f(R) == IF R = {} THEN <<>> ELSE LET m == CHOOSE x \in R : \A y \in R : x <= y IN <<m>> \o f(R \ {m}) IN f(S)
CPush ==
  /\ cpc = "push" /\ cpc' = "ret"
  /\ LET js == SeqOf(call.new) IN
     IF strat = "static" THEN \* split in W groups (some may be empty)
        \E f \in [call.new -> Th] :
          /\ groups' = [i \in 1 .. W |-> SelectSeq(js, LAMBDA j : f[j] = i)] \o groups
          /\ UNCHANGED q
     ELSE q' = q \o js /\ UNCHANGED groups
  /\ (PostAll \/ (Cardinality(call.new) = 1 /\ strat # "static" /\ Post))
  /\ UNCHANGED <<pc, grp, strat, tl, working, alive, keep, idleN, exists, freed, nops, nj, abs>>
CRet == cpc = "ret" /\ cpc' = "idle" /\ call' = Idle
  /\ UNCHANGED <<pc, grp, pool, tl, working, alive, keep, idleN, exists, freed, nops, nj, sub, started, done, dropped, by, live>>
CStrat(s) == Op /\ s # strat /\ strat' = s
  /\ UNCHANGED <<pc, grp, q, groups, semv, semw, semn, tl, working, alive, keep, idleN, cpc, exists, freed, nj, abs>>
CWait == Op /\ exists /\ call' = [op |-> "wait"] /\ cpc' = "wlock"
  /\ UNCHANGED <<pc, grp, pool, tl, working, alive, keep, idleN, exists, freed, nj, sub, started, done, dropped, by, live>>
CWLock == cpc = "wlock" /\ tl = -1 /\ tl' = 0 /\ cpc' = "wlen"
  /\ UNCHANGED <<pc, grp, pool, working, alive, keep, idleN, exists, freed, nops, nj, abs>>
CSleep == cpc' = "wsleep" /\ tl' = -1 /\ idleN' = FALSE
CWLen == /\ cpc = "wlen" /\ IF q # <<>> THEN CSleep ELSE cpc' = "wgrp" /\ UNCHANGED <<tl, idleN>>
         /\ UNCHANGED <<pc, grp, pool, working, alive, keep, exists, freed, nops, nj, abs>>
CWGrp == /\ cpc = "wgrp" /\ IF groups # <<>> THEN CSleep ELSE cpc' = "wwork" /\ UNCHANGED <<tl, idleN>>
         /\ UNCHANGED <<pc, grp, pool, working, alive, keep, exists, freed, nops, nj, abs>>
CWWork == /\ cpc = "wwork" /\ IF working # 0 THEN CSleep ELSE cpc' = "ret" /\ tl' = -1 /\ UNCHANGED idleN
          /\ UNCHANGED <<pc, grp, pool, working, alive, keep, exists, freed, nops, nj, abs>>
CWWake == cpc = "wsleep" /\ idleN /\ cpc' = "wlock"
  /\ UNCHANGED <<pc, grp, pool, tl, working, alive, keep, idleN, exists, freed, nops, nj, abs>>
CShut == Op /\ exists /\ call' = [op |-> "shutdown"] /\ keep' = FALSE /\ cpc' = "poll"
  /\ UNCHANGED <<pc, grp, pool, tl, working, alive, idleN, exists, freed, nj, sub, started, done, dropped, by, live>>
CPoll == /\ cpc = "poll"
         /\ IF alive > 0 THEN PostAll /\ UNCHANGED cpc ELSE cpc' = "join" /\ UNCHANGED <<semv, semw, semn>>
         /\ UNCHANGED <<pc, grp, q, groups, strat, tl, working, alive, keep, idleN, exists, freed, nops, nj, abs>>
CFree == /\ cpc = "join" /\ (JoinAtDestroy => \A t \in Th : pc[t] = "gone")
         /\ freed' = TRUE /\ exists' = FALSE
         /\ q' = <<>> /\ groups' = <<>> /\ semv' = 0 /\ semw' = {} /\ semn' = {} /\ idleN' = FALSE
         /\ cpc' = "sret"
         /\ UNCHANGED <<pc, grp, strat, tl, working, alive, keep, nops, nj, abs>>
CSRet == /\ cpc = "sret" /\ cpc' = "idle" /\ call' = Idle
         /\ dropped' = dropped \cup (sub \ started)
         /\ UNCHANGED <<pc, grp, pool, tl, working, alive, keep, idleN, exists, freed, nops, nj, sub, started, done, by, live>>
ClientStep == CCreate \/ CSpin \/ CPush \/ CRet \/ CWLock \/ CWLen \/ CWGrp \/ CWWork \/ CWWake \/ CPoll \/ CFree \/ CSRet
ClientOp == (\E n \in 1 .. 2 : CAdd(n)) \/ (\E s \in {"dyn", "static", "guided"} : CStrat(s)) \/ CWait \/ CShut
Next == ClientStep \/ ClientOp \/ \E t \in Th : Worker(t)
Fair == WF_vars(ClientStep) /\ (\A t \in Th : WF_vars(Worker(t)))
Spec == Init /\ [][Next]_vars /\ Fair

\* jobs may take forever: only then can a worker that was not woken be told from one that is merely late
WorkerNoEnd(t) == WStart(t) \/ WLoop(t) \/ WSem(t) \/ WWake(t) \/ WWoken(t) \/ WInc(t) \/ WPLoop(t) \/ WPull(t)
                  \/ WRun(t) \/ WDec(t) \/ WExit(t) \/ WUnlock(t)
SpecLong == Init /\ [][Next]_vars /\ WF_vars(ClientStep) /\ (\A t \in Th : WF_vars(WorkerNoEnd(t)))

\* ---------------------------------------------------------------- properties
OnceQueued == \* no job is in two places
  LET inq == {q[i] : i \in DOMAIN q} ing == UNION {{groups[i][k] : k \in DOMAIN groups[i]} : i \in DOMAIN groups}
      inw == UNION {{grp[t][k] : k \in DOMAIN grp[t]} : t \in Th}
  IN inq \cap ing = {} /\ inq \cap inw = {} /\ ing \cap inw = {}
ReturnBarrier == (cpc = "ret" /\ call.op = "wait") => sub \subseteq done \cup dropped
NoUseAfterFree == freed => \A t \in Th : pc[t] \in {"none", "gone"}
ContractSafety == C!TypeOK /\ C!ExactlyOnce
Refines == C!CInit /\ [][ \/ \E f \in 0 .. MaxJob, n \in 1 .. 2 : C!CallAdd(f, n)
                          \/ C!RetAdd \/ C!RetWait \/ C!RetShutdown(0)
                          \/ \E o \in {"wait", "shutdown"} : C!CallSimple(o)
                          \/ \E j \in 0 .. MaxJob, t \in Th : (C!StartJob(j, j % 8, t) \/ C!EndJob(j, t))
                          \/ \E t \in Th : (C!ThreadStart(t) \/ C!ThreadExit(t)) ]_abs
\* idle workers are woken for queued work: it does not stay queued while a worker has nothing to do
WokenForWork == (exists /\ (q # <<>> \/ groups # <<>>)) ~> ((q = <<>> /\ groups = <<>>) \/ (\A t \in Th : pc[t] = "end") \/ ~keep)
CallsReturn == (call # Idle) ~> (call = Idle)
=============================================================================
