---------------------------- MODULE PoolContract ----------------------------
(* The contract of the generated thread pool, as seen from outside: the      *)
(* client's calls and their returns, the start and end of every job, and the *)
(* life of the worker threads.  Thread 0 is the client.  ThreadPool.tla (the *)
(* design) refines this module; PoolTrace.tla validates recorded executions  *)
(* of the real pool against it.                                              *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANT MaxJob \* jobs are 0..MaxJob
VARIABLES
  sub,       \* submitted jobs
  started,   \* jobs whose execution began
  done,      \* jobs whose execution ended
  dropped,   \* jobs discarded by a shutdown before they began
  by,        \* job -> thread that runs / ran it (only for started jobs)
  live,      \* live worker threads
  cfg,       \* configured number of threads
  disabled,  \* the user disabled the pool
  call       \* the client's current call: [op |-> ..., ...]

cvars == <<sub, started, done, dropped, by, live, cfg, disabled, call>>
Idle == [op |-> "none"]
Running == started \ done
NewJobs(f, n) == f .. (f + n - 1)

CInit ==
  /\ sub = {} /\ started = {} /\ done = {} /\ dropped = {} /\ by = <<>>
  /\ live = {} /\ cfg = 2 /\ disabled = FALSE /\ call = Idle

\* ---- the client
CallAdd(f, n) ==
  /\ call = Idle
  /\ NewJobs(f, n) \cap sub = {}
  /\ call' = [op |-> "add", new |-> NewJobs(f, n), off |-> disabled \/ (cfg = 0 /\ live = {})]
  /\ sub' = sub \cup NewJobs(f, n)
  /\ UNCHANGED <<started, done, dropped, by, live, cfg, disabled>>
RetAdd ==
  /\ call.op = "add"
  /\ call.off => call.new \subseteq done   \* a disabled pool runs the jobs before returning
  /\ call' = Idle
  /\ UNCHANGED <<sub, started, done, dropped, by, live, cfg, disabled>>

CallSimple(o) ==
  /\ call = Idle /\ call' = [op |-> o]
  /\ UNCHANGED <<sub, started, done, dropped, by, live, cfg, disabled>>
RetWait ==
  /\ call.op = "wait"
  /\ sub \subseteq (done \cup dropped)     \* the barrier
  /\ call' = Idle
  /\ UNCHANGED <<sub, started, done, dropped, by, live, cfg, disabled>>
RetShutdown(leaked) ==
  /\ call.op = "shutdown"
  /\ live = {} /\ Running = {}             \* every worker has ended
  /\ leaked = 0                            \* all memory was released
  /\ dropped' = dropped \cup (sub \ started)
  /\ call' = Idle
  /\ UNCHANGED <<sub, started, done, by, live, cfg, disabled>>
RetPrepare ==
  /\ call.op = "prepare" /\ call' = Idle
  /\ UNCHANGED <<sub, started, done, dropped, by, live, cfg, disabled>>

CallSet(o, v) ==
  /\ call = Idle /\ call' = [op |-> o, v |-> v]
  /\ UNCHANGED <<sub, started, done, dropped, by, live, cfg, disabled>>
RetSet(v) ==
  /\ call.op \in {"threads", "strategy", "disabled", "verbose", "guided", "timeref", "nmeas"}
  /\ v = call.v                            \* read back
  /\ cfg' = IF call.op = "threads" THEN v ELSE cfg
  /\ disabled' = IF call.op = "disabled" THEN v # 0 ELSE disabled
  /\ call' = Idle
  /\ UNCHANGED <<sub, started, done, dropped, by, live>>

\* ---- jobs and workers
StartJob(j, f, t) ==
  /\ j \in sub /\ j \notin started /\ j \notin dropped     \* exactly once, never after a shutdown dropped it
  /\ f = j % 8                                              \* its own function (and its own argument)
  /\ IF t = 0 THEN call.op \in {"add", "wait"}             \* only when the client is inside the pool
              ELSE t \in live
  /\ \A k \in Running : by[k] # t                           \* one job at a time per thread
  /\ started' = started \cup {j}
  /\ by' = [k \in started' |-> IF k = j THEN t ELSE by[k]]
  /\ UNCHANGED <<sub, done, dropped, live, cfg, disabled, call>>
EndJob(j, t) ==
  /\ j \in Running /\ by[j] = t
  /\ done' = done \cup {j}
  /\ UNCHANGED <<sub, started, dropped, by, live, cfg, disabled, call>>
ThreadStart(t) ==
  /\ t \notin live /\ t # 0
  /\ call.op \in {"add", "prepare"} /\ ~disabled           \* the pool is created on demand only
  /\ Cardinality(live) < cfg
  /\ live' = live \cup {t}
  /\ UNCHANGED <<sub, started, done, dropped, by, cfg, disabled, call>>
ThreadExit(t) ==
  /\ t \in live /\ call.op = "shutdown"
  /\ \A k \in Running : by[k] # t
  /\ live' = live \ {t}
  /\ UNCHANGED <<sub, started, done, dropped, by, cfg, disabled, call>>

\* ---- the job order after timings were taken (order: 0-based permutation)
OrderOk(o, refOk, meas, first) ==
  /\ {o[i] : i \in DOMAIN o} = 0 .. (Len(o) - 1)
  /\ refOk = 1
  /\ \A i \in DOMAIN meas : (first + i - 1) \in DOMAIN by /\ by[first + i - 1] # 0 => meas[i] = 1

\* ---- consequences (checked by TLC on the design)
TypeOK == done \subseteq started /\ started \subseteq sub /\ dropped \subseteq sub
ExactlyOnce == started \cap dropped = {}
=============================================================================
