------------------------------- MODULE Build -------------------------------
(* Histories of building and saving libraries with faults (C18).              *)
(* A generator collects models and additional sources; libraries are built    *)
(* from all of them, or an exception is thrown when any step fails; a failed  *)
(* attempt leaves nothing behind and does not spoil later ones.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NOps,    \* operations of a history
          Single   \* one build with every kind of fault at every position
VARIABLES models,  \* model -> set of routines
          custom,  \* number of additional sources
          libs,    \* library file -> what it contains, or "undefined"
          log, phase
vars == <<models, custom, libs, log, phase>>
R(S) == RandomElement(IF phase >= 0 THEN S ELSE {})
Coin(n) == R(1 .. n) = 1
Routines == {"for0", "jac", "hess", "for1", "rev1", "rev2", "spjac", "sphess", "loops"}   \* loops: repeated equations are generated as a loop
Files == {"a.so", "b.so", "a.xyz", "b.xyz", "a.a", "b.a"}
Nothing == [models |-> <<>>, custom |-> -1]
Content == [models |-> models, custom |-> custom]

(* ---- what models compute ---- *)
Y(m, x) == <<(m + 1) * x[1] * x[2], x[1] + m, m * x[1] * x[1], m * x[2] * x[2]>>   \* the last two repeat
Jac(m, x) == <<<<(m + 1) * x[2], (m + 1) * x[1]>>, <<1, 0>>, <<2 * m * x[1], 0>>, <<0, 2 * m * x[2]>>>>

(* ---- faults ---- *)
\* of a process which is handed a source or linked: at a position among the steps, 8 being the last one
Proc == {"exit", "early", "partial", "kill"}
Lies == {"noout"}
Set == {"noexec"}                \* there is no such program
Fs == {"tmpfile", "nolibdir", "libdir"}
Disk == {"srcdirfile", "srcfiledir", "srcfull"}
Save == {"srcdirfile", "srcfiledir", "srcfull"}
Listen == {"listener"}          \* something called back throws
None == [how |-> "none", pos |-> 0]
Signals == [how |-> "signals", pos |-> 0]   \* the program handles signals meanwhile: no fault
Pos == 0 .. 8
BuildFaults(disk) == {None, Signals} \cup [how : Proc, pos : Pos] \cup [how : Lies, pos : 0 .. 7] \cup [how : Set \cup Fs, pos : {0}]
                     \cup (IF disk THEN [how : Disk, pos : 0 .. 7] ELSE {})
                     \cup [how : Listen, pos : {1, 2, 3, 5, 8, 13, 21, 34, 55}]
SaveFaults == {None} \cup [how : Save, pos : 0 .. 7] \cup [how : Listen, pos : {1, 2, 5, 13}]
\* whether an exception is expected; a listener may not be called that often
Outcome(f) == IF f.how \in {"none", "signals"} THEN "ok" ELSE IF f.how = "listener" THEN "fired" ELSE "throw"
File(op) == op.name \o (IF op.q = "static" THEN (IF op.ext THEN ".xyz" ELSE ".a") ELSE IF op.ext THEN ".xyz" ELSE ".so")

(* ---- operations ---- *)
Init == models = <<>> /\ custom = 0 /\ libs = [f \in Files |-> Nothing] /\ log = <<>> /\ phase = 0
AddModel == /\ Len(models) < 2
            /\ \E o \in {IF Single THEN {"for0", "spjac", "for1", "rev1"} ELSE {r \in Routines : ~Coin(3)} \cup {"for0"}} :
                 /\ models' = Append(models, o)
                 /\ log' = Append(log, [q |-> "model", m |-> Len(models) + 1, routines |-> o])
            /\ UNCHANGED <<custom, libs, phase>>
AddCustom == /\ custom < 3 /\ models # <<>>
             /\ \E big \in {IF Single THEN TRUE ELSE Coin(2)} : log' = Append(log, [q |-> "custom", k |-> custom + 1, big |-> big])
             /\ custom' = custom + 1 /\ UNCHANGED <<models, libs, phase>>
Finish(op) ==
  LET ok == Outcome(op.fault) IN
  /\ libs' = [libs EXCEPT ![File(op)] = IF ok = "ok" THEN Content ELSE [models |-> <<>>, custom |-> -2]]
  /\ log' = Append(log, op @@ [out |-> ok, content |-> Content])
DoBuild(f) ==
  \E c \in {R({"gcc", "clang"})} : \E d \in {f.how \in Disk \/ Coin(3)} : \E op \in {[q |-> R({"dyn", "dyn", "static"}), cc |-> c, name |-> R({"a", "b"}), ext |-> Coin(4), load |-> ~Coin(4), pic |-> TRUE, disk |-> d, fault |-> f]} :
    /\ Finish(op) /\ UNCHANGED <<models, custom, phase>>
Pick(disk) == IF Coin(3) THEN None ELSE LET h == R({f.how : f \in BuildFaults(disk)} \ {"none"}) IN R({f \in BuildFaults(disk) : f.how = h})
Build == models # <<>> /\ (\E d \in {Coin(3)} : \E f \in {Pick(d)} : DoBuild(f))
SaveOp == /\ models # <<>>
          /\ \E f \in {IF Coin(2) THEN None ELSE R(SaveFaults \ {None})} :
               log' = Append(log, [q |-> "save", api |-> (IF f.how = "listener" THEN "proc" ELSE R({"proc", "gen", "static"})), fault |-> f, out |-> Outcome(f), content |-> Content])
          /\ UNCHANGED <<models, custom, libs, phase>>
BitCode == /\ \E f \in {IF Coin(2) THEN None ELSE R([how : Proc, pos : 0 .. 7])} :
                log' = Append(log, [q |-> "bitcode", fault |-> f, out |-> Outcome(f)])
           /\ UNCHANGED <<models, custom, libs, phase>>
Version == /\ \E n \in {R({1, 20, 300})} : log' = Append(log, [q |-> "version", kb |-> n])
           /\ UNCHANGED <<models, custom, libs, phase>>
More == ~Single /\ phase = 0 /\ Len(log) < NOps
Sim == /\ More
       /\ \E k \in {IF models = <<>> THEN 1 ELSE R({1, 2, 3, 3, 3, 3, 3, 3, 4, 4, 5, 6})} :
            CASE k = 1 -> AddModel [] k = 2 -> AddCustom [] k = 3 -> Build [] k = 4 -> SaveOp [] k = 5 -> BitCode [] OTHER -> Version
\* a fault-free build of everything ends each history
Last(k, c, d) == [q |-> k, cc |-> c, name |-> "b", ext |-> FALSE, load |-> TRUE, pic |-> TRUE, disk |-> d, fault |-> None]
End == /\ More \/ (~Single /\ phase = 0 /\ Len(log) = NOps)
       /\ Len(log) = NOps /\ models # <<>>
       /\ Finish(Last("dyn", "gcc", FALSE)) /\ phase' = 1 /\ UNCHANGED <<models, custom>>
\* every fault, once, on each kind of library, with and without sources kept
SingleOps == {<<k, d, f>> \in {"dyn", "static"} \X BOOLEAN \X (BuildFaults(TRUE) \cup BuildFaults(FALSE)) : f \in BuildFaults(d) /\ f # None}
OneBuild == /\ Single /\ phase = 0 /\ models = <<>>
            /\ \E s \in SingleOps :
                 LET o == {"for0", "spjac", "for1", "rev1"} \cup (IF s[2] THEN {"loops"} ELSE {})
                     full == [models |-> <<o>>, custom |-> 1]
                     op == [Last(s[1], IF s[2] THEN "gcc" ELSE "clang", s[2]) EXCEPT !.fault = s[3]] IN
                 /\ log' = <<[q |-> "model", m |-> 1, routines |-> o], [q |-> "custom", k |-> 1, big |-> TRUE],
                             op @@ [out |-> Outcome(s[3]), content |-> full],
                             Last("dyn", "gcc", FALSE) @@ [out |-> "ok", content |-> full]>>
                 /\ models' = <<o>> /\ custom' = 1 /\ phase' = 1 /\ libs' = [libs EXCEPT !["b.so"] = full]
OneSave == /\ Single /\ phase = 0 /\ models = <<>>
           /\ \E f \in SaveFaults : \E a \in {"proc", "gen", "static"} :
                 LET o == {"for0", "spjac", "for1", "rev1"}
                     full == [models |-> <<o>>, custom |-> 1] IN
                 /\ log' = <<[q |-> "model", m |-> 1, routines |-> o], [q |-> "custom", k |-> 1, big |-> TRUE],
                             [q |-> "save", api |-> a, fault |-> f, out |-> Outcome(f), content |-> full],
                             [q |-> "save", api |-> "proc", fault |-> None, out |-> "ok", content |-> full]>>
                 /\ models' = <<o>> /\ custom' = 1 /\ phase' = 1 /\ libs' = libs
Next == Sim \/ End \/ OneBuild \/ OneSave
Spec == Init /\ [][Next]_vars

(* ---- on the specification itself ---- *)
\* a library has everything that there was when it was built; failures are reported, and only those
LibsWhole == \A f \in Files : libs[f].custom >= 0 => Len(libs[f].models) > 0 /\ Len(libs[f].models) <= Len(models) /\ libs[f].custom <= custom
Points == <<<<2, 3>>, <<-1, 4>>>>
Values == [m \in 1 .. 2 |-> [p \in 1 .. 2 |-> [x |-> Points[p], y |-> Y(m, Points[p]), jac |-> Jac(m, Points[p])]]]
Emit == phase = 1 => PrintT(<<"GEN", ToJson([log |-> log, values |-> Values])>>)
=============================================================================
