---------------------------- MODULE BuildDesign ----------------------------
(* Building a library, step by step (C18): each source is handed to a         *)
(* compiler process over a pipe, the process reports by its exit status, the  *)
(* objects are linked, temporary files are removed.  Any compiler process may *)
(* fail: not start, give up before reading, stop half way, be killed, or      *)
(* claim success without a result.                                            *)
EXTENDS Naturals, FiniteSets
CONSTANTS NF,      \* source files
          Chunks,  \* writes needed to hand over one source
          Cap,     \* writes the pipe holds
          Guarded  \* writing to a process that is gone is an error, not a signal
VARIABLES step,    \* 1 .. NF: compiling, NF+1: linking
          pc,      \* what the library does: write, wait, next, clean, end, or dead
          left,    \* writes left
          pipe,    \* writes not yet read
          child,   \* none, run, ok, failed, killed
          reads,   \* writes read by the child
          werr,    \* a write failed
          tmp,     \* objects on disk
          lib,     \* objects in the library, or {} when there is none
          out, faults
vars == <<step, pc, left, pipe, child, reads, werr, tmp, lib, out, faults>>
Link == step = NF + 1
Init == /\ step = 1 /\ pc = "start" /\ left = 0 /\ pipe = 0 /\ child = "none" /\ reads = 0 /\ werr = FALSE
        /\ tmp = {} /\ lib = {} /\ out = "none" /\ faults = 0
Start == /\ pc = "start" /\ pc' = "write" /\ left' = (IF Link THEN 0 ELSE Chunks) /\ pipe' = 0 /\ child' = "run" /\ reads' = 0 /\ werr' = FALSE
         /\ UNCHANGED <<step, tmp, lib, out, faults>>
Write == /\ pc = "write" /\ left > 0
         /\ IF child = "run" THEN pipe < Cap /\ pipe' = pipe + 1 /\ left' = left - 1 /\ UNCHANGED <<pc, werr>>
            ELSE IF Guarded THEN werr' = TRUE /\ pc' = "wait" /\ UNCHANGED <<pipe, left>>
            ELSE pc' = "dead" /\ UNCHANGED <<pipe, left, werr>>
         /\ UNCHANGED <<step, child, reads, tmp, lib, out, faults>>
Written == pc = "write" /\ left = 0 /\ pc' = "wait" /\ UNCHANGED <<step, left, pipe, child, reads, werr, tmp, lib, out, faults>>
\* the compiler
Read == child = "run" /\ pipe > 0 /\ pipe' = pipe - 1 /\ reads' = reads + 1 /\ UNCHANGED <<step, pc, left, child, werr, tmp, lib, out, faults>>
Enough == Link \/ reads = Chunks
Succeed == /\ child = "run" /\ Enough /\ child' = "ok"
           /\ IF Link THEN lib' = tmp /\ tmp' = tmp ELSE tmp' = tmp \cup {step} /\ lib' = lib
           /\ Link => tmp = 1 .. NF
           /\ UNCHANGED <<step, pc, left, pipe, reads, werr, out, faults>>
\* linking what is not there fails
Missing == Link /\ child = "run" /\ tmp # 1 .. NF /\ child' = "failed" /\ UNCHANGED <<step, pc, left, pipe, reads, werr, tmp, lib, out, faults>>
Fail == /\ child = "run" /\ child' \in {"failed", "killed"} /\ faults' = faults + 1
        /\ \E o \in SUBSET {step} : tmp' = (IF Link THEN tmp ELSE tmp \cup o)   \* perhaps half an object
        /\ UNCHANGED <<step, pc, left, pipe, reads, werr, lib, out>>
Lie == child = "run" /\ ~Link /\ child' = "ok" /\ faults' = faults + 1 /\ UNCHANGED <<step, pc, left, pipe, reads, werr, tmp, lib, out>>
\* the library goes on
Wait == /\ pc = "wait" /\ child # "run"
        /\ IF child = "ok" /\ ~werr
           THEN IF Link THEN pc' = "clean" /\ out' = "ok" /\ step' = step ELSE pc' = "start" /\ step' = step + 1 /\ out' = out
           ELSE pc' = "clean" /\ out' = "throw" /\ step' = step
        /\ child' = "none"
        /\ UNCHANGED <<left, pipe, reads, werr, tmp, lib, faults>>
Clean == pc = "clean" /\ tmp' = {} /\ pc' = "end" /\ UNCHANGED <<step, left, pipe, child, reads, werr, lib, out, faults>>
Done == pc \in {"end", "dead"} /\ UNCHANGED vars
Next == Start \/ Write \/ Written \/ Read \/ Succeed \/ Missing \/ Fail \/ Lie \/ Wait \/ Clean \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Write \/ Written \/ Wait \/ Clean) /\ WF_vars(Read) /\ WF_vars(Succeed \/ Missing)

Survives == pc # "dead"
AllOrNothing == pc = "end" => /\ out \in {"ok", "throw"}
                              /\ out = "ok" => lib = 1 .. NF
                              /\ (out = "ok") = (faults = 0)
NothingLeft == pc = "end" => tmp = {} /\ child = "none"
Ends == <>(pc \in {"end", "dead"})
=============================================================================
