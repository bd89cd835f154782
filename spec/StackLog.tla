------------------------------- MODULE StackLog -------------------------------
(***************************************************************************)
(* The discipline of the stack, over recorded logs of the stack pointer    *)
(* (one entry whenever it is set), whatever the optimisations.             *)
(*                                                                         *)
(* A log is replayed step by step; lv is the sequence of levels that are   *)
(* open.  The pointer moves up to open a level, and moves down only to     *)
(* exactly a level that is open (it restores a caller's stack).  When main *)
(* has returned, only its own frame is left: the levels that main opened   *)
(* before its first call.                                                  *)
(*                                                                         *)
(* Groups of logs of one program with growing lengths of a chain of tail   *)
(* calls have to stay within the same height; groups of one program with   *)
(* and without stack allocation: the second may not be lower.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

\* sequence of [k |-> "log", log, fp, sp, floor, quiet, main] or [k |-> "flat" / "below" / "same", logs]
Recs == JsonDeserialize(IOEnv.STACK_LOGS)
VARIABLES r, i, lv, verdict
vars == <<r, i, lv, verdict>>
Init == r \in 1 .. Len(Recs) /\ i = 0 /\ lv = <<>> /\ verdict = "run"

Rec == Recs[r]
Top(s) == s[Len(s)]
RECURSIVE CutTo(_, _)
CutTo(s, v) == IF s = <<>> \/ Top(s) <= v THEN s ELSE CutTo(SubSeq(s, 1, Len(s) - 1), v)
Entry == /\ verdict = "run" /\ Rec.k = "log" /\ i < Len(Rec.log)
         /\ i' = i + 1
         /\ LET v == Rec.log[i + 1] IN
            IF lv = <<>> THEN /\ lv' = <<v>>
                              /\ verdict' = IF v >= Rec.floor THEN "run" ELSE "below the start of the stack"
            ELSE IF v > Top(lv) THEN lv' = Append(lv, v) /\ verdict' = "run"
            ELSE LET c == CutTo(lv, v) IN
                 /\ lv' = c
                 /\ verdict' = IF c # <<>> /\ Top(c) = v THEN "run"
                               ELSE "the stack pointer is set to what no caller had"
         /\ UNCHANGED r
\* main's frame starts where the arrays of static storage duration end, or first of all
FpOk == \E k \in 0 .. Len(Rec.log) - 1 :
          /\ Rec.log[k + 1] = Rec.fp + 8
          /\ k > 0 => Rec.log[k] = Rec.fp
          /\ \A j \in 1 .. k : Rec.log[j] <= Rec.fp
\* the run is over: the pointer is where the log left it, and main's frame pointer is back
End == /\ verdict = "run" /\ Rec.k = "log" /\ i = Len(Rec.log)
       /\ verdict' = IF Len(Rec.log) = 0 THEN "empty log"
                     ELSE IF Rec.sp # Top(lv) THEN "the stack pointer differs from the log"
                     ELSE IF ~FpOk THEN "the frame pointer is not restored"
                     ELSE IF Rec.quiet /\ Len(lv) > Rec.main THEN "frames are left on the stack"
                     ELSE "ok"
       /\ UNCHANGED <<r, i, lv>>
\* the heights of the stack over growing chains of tail calls
MaxOf(s) == LET RECURSIVE M(_, _)
                M(j, a) == IF j > Len(s) THEN a ELSE M(j + 1, IF s[j] > a THEN s[j] ELSE a)
            IN M(1, 0)
Flat == /\ verdict = "run" /\ Rec.k = "flat"
        /\ verdict' = IF \A j \in 1 .. Len(Rec.logs) : MaxOf(Rec.logs[j]) <= MaxOf(Rec.logs[1])
                      THEN "ok" ELSE "the stack grows with the chain"
        /\ UNCHANGED <<r, i, lv>>
\* the same run with stack allocation (logs[1]) and without (logs[2])
Up(s, j) == s[j + 1] - s[j]
Below == /\ verdict = "run" /\ Rec.k = "below"
         /\ verdict' = LET a == Rec.logs[1]  b == Rec.logs[2] IN
                       IF IF Len(a) = Len(b)
                          THEN \A j \in 1 .. Len(a) - 1 : Up(b, j) >= 0 => Up(a, j) <= Up(b, j)
                          ELSE MaxOf(a) <= MaxOf(b)
                       THEN "ok" ELSE "a frame is larger than without stack allocation"
         /\ UNCHANGED <<r, i, lv>>
\* two logs of the same run
Same == /\ verdict = "run" /\ Rec.k = "same"
        /\ verdict' = IF Rec.logs[1] = Rec.logs[2] THEN "ok" ELSE "the logs differ"
        /\ UNCHANGED <<r, i, lv>>
Report == /\ verdict \notin {"run", "reported"}
          /\ PrintT(<<"STACK", r, verdict>>)
          /\ verdict' = "reported"
          /\ UNCHANGED <<r, i, lv>>
Next == Entry \/ End \/ Flat \/ Below \/ Same \/ Report
Spec == Init /\ [][Next]_vars
\* the levels that are open are always strictly increasing
Increasing == \A j \in 1 .. Len(lv) - 1 : lv[j] < lv[j + 1]
=============================================================================
