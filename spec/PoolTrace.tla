------------------------------ MODULE PoolTrace ------------------------------
(* Trace validation: every line of TRACES is one recorded execution of the   *)
(* real pool; it must be a behaviour of PoolContract.  A trace that cannot   *)
(* be continued deadlocks TLC; l and ti of the last state locate the event.  *)
EXTENDS PoolContract, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES ti, l
Ev == Traces[ti].ev
TInit == CInit /\ ti \in 1 .. Len(Traces) /\ l = 1
Is(e) == l <= Len(Ev) /\ Ev[l].e = e /\ l' = l + 1 /\ ti' = ti
E == Ev[l]
TNext ==
  \/ Is("call") /\ E.op = "add" /\ CallAdd(E.first, E.n)
  \/ Is("call") /\ E.op \in {"wait", "shutdown", "prepare"} /\ CallSimple(E.op)
  \/ Is("call") /\ E.op \in {"threads", "strategy", "disabled", "verbose", "guided", "timeref", "nmeas"} /\ CallSet(E.op, E.n)
  \/ Is("ret") /\ (RetAdd \/ RetWait \/ RetPrepare \/ RetShutdown(E.v) \/ RetSet(E.v))
  \/ Is("start") /\ StartJob(E.j, E.f, E.t)
  \/ Is("end") /\ EndJob(E.j, E.t)
  \/ Is("tstart") /\ ThreadStart(E.t)
  \/ Is("texit") /\ ThreadExit(E.t)
  \/ Is("order") /\ OrderOk(E.o, E.ref, E.meas, E.first) /\ call = Idle /\ UNCHANGED cvars
  \/ l > Len(Ev) /\ UNCHANGED <<cvars, ti, l>>
TSpec == TInit /\ [][TNext]_<<cvars, ti, l>>
=============================================================================
