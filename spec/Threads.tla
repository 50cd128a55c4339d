------------------------------ MODULE Threads -------------------------------
(* Multi-threaded evaluation of the sparse Jacobian and Hessian of a model    *)
(* (C03): histories of evaluations mixed with changes of the configuration of *)
(* the library's pool of threads.  The configuration only ever changes how an *)
(* answer is computed: every answer is that of the sequential model, and the  *)
(* configuration reads back as it was set.                                    *)
EXTENDS Model
CONSTANTS Kinds      \* kinds of multi-threading: "none", "pthreads", "openmp"
VARIABLES conf
tvars == <<nodes, val, deps, phase, tries, opts, calls, conf>>

Fields == {"threads", "strategy", "disabled", "verbose", "guided", "meas"}   \* guided: in quarters
\* multi-threaded code is generated
MTJac(o) == o.spjac /\ o.reuse1 /\ (o.for1 \/ o.rev1)
MTHess(o) == o.sphess /\ o.reuse2 /\ o.rev2
Pool(o) == IF o.mt /\ (MTJac(o) \/ MTHess(o)) THEN o.threads ELSE "none"
\* a value which was not set is the initial one (the conformance check reads it from the library)
Initial == -1
\* nothing is printed unless it was asked for
Defaults(k) == [f \in Fields |-> IF f = "verbose" THEN 0 ELSE Initial]
Fixed(k) == CASE k = "pthreads" -> {} [] k = "openmp" -> {"guided", "meas"} [] OTHER -> {"threads", "strategy", "disabled", "verbose", "guided", "meas"}
Range(f) == CASE f = "threads" -> {1, 2, 3, 4, 7, 9} [] f = "strategy" -> 1 .. 3 [] f \in {"disabled", "verbose"} -> 0 .. 1 [] f = "guided" -> 1 .. 4 [] f = "meas" -> {0, 1, 2, 5}

\* mostly models with multi-threaded code
TOptions == LET o == Options IN
  [k \in DOMAIN o |-> IF k \in {"for1", "rev1"} /\ R(1 .. 3) > 1 THEN TRUE ELSE IF k \in {"spjac", "sphess", "rev2", "reuse1", "reuse2"} /\ R(1 .. 20) > 1 THEN TRUE ELSE o[k]]
  @@ [threads |-> R(Kinds), mt |-> R(1 .. 12) > 1]
Change == [f \in {x \in Fields : R(1 .. 3) = 1} |-> R(Range(f))]
Set(c, ch, k) == [f \in Fields |-> IF f \in DOMAIN ch /\ f \notin Fixed(k) THEN ch[f] ELSE c[f]]

TInit == MInit /\ conf = <<>>
TRecord == MRecord /\ UNCHANGED <<conf>>
TBuild == /\ phase = 2 /\ phase' = 3
          /\ \E o \in {TOptions} : opts' = o /\ conf' = Defaults(Pool(o))
          /\ UNCHANGED <<nodes, val, deps, tries, calls>>
TCall == MCall /\ UNCHANGED <<conf>>
TConfigure == /\ phase = 3 /\ Len(calls) < NQ
              /\ \E ch \in {Change} :
                   LET n == Set(conf, ch, Pool(opts)) IN
                   /\ conf' = n
                   /\ calls' = Append(calls, [q |-> [r |-> "config", pt |-> 0, form |-> 0, ch |-> ch], ok |-> TRUE, a |-> n])
              /\ UNCHANGED <<nodes, val, deps, phase, tries, opts>>
TEnd == MEnd /\ UNCHANGED <<conf>>
TNext == TRecord \/ TBuild \/ TCall \/ TConfigure \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
\* the answers do not depend on the configuration: an evaluation is determined by the model and its arguments
Answers == \A i, j \in DOMAIN calls : calls[i].q.r # "config" /\ calls[i].q = calls[j].q => calls[i].a = calls[j].a /\ calls[i].ok = calls[j].ok
ConfigKept == phase = 3 => \A f \in Fixed(Pool(opts)) : conf[f] = Defaults(Pool(opts))[f]
=============================================================================
