------------------------------ MODULE IndexCheck ------------------------------
(* Patterns which the code detected, one per line of PATTERNS: each must     *)
(* meet the contract.                                                        *)
EXTENDS IndexPattern, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.PATTERNS)
Holds(o) == CASE o.k = "1" -> Reproduces1(o.p, o.m)
              [] o.k = "2" -> Reproduces2(o.p, o.m)
              [] o.k = "shift" -> Shifted(o.q, o.p, o.d, o.m)
              [] o.k = "block" -> Block(o.e, o.p, o.d, o.m)
CInit == pos \in 1 .. Len(Obs) /\ m = <<>> /\ secs = <<>> /\ prev = 1 /\ st = "run"
CSpec == CInit /\ [][UNCHANGED vars]_vars
Contract == Holds(Obs[pos]) \/ PrintT(<<"BAD", pos>>)
=============================================================================
