-------------------------------- MODULE Publish --------------------------------
(* One output path.  A run writes its result (its version number) part by part *)
(* to a temporary name, closes it and renames it to the path.  The machine or   *)
(* the process can stop between any two system calls, and any write can fail;   *)
(* runs follow each other in the same directory.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NParts, NRuns,
          Direct,        \* writes at the path itself            (wrong)
          EarlyRename,   \* renames before the last part         (wrong)
          Swallow        \* goes on after a failed write         (wrong)
VARIABLES path, tmp, pc, run, res, before
vars == <<path, tmp, pc, run, res, before>>
None == [v |-> 0, n |-> 0]
Whole(v) == [v |-> v, n |-> NParts]
Init == path = None /\ tmp = None /\ pc = "start" /\ run = 1 /\ res = "running" /\ before = None
Put(f) == IF Direct THEN path' = f /\ UNCHANGED tmp ELSE tmp' = f /\ UNCHANGED path
Cur == IF Direct THEN path ELSE tmp
Open == pc = "start" /\ pc' = "write" /\ Put([v |-> run, n |-> 0]) /\ UNCHANGED <<run, res, before>>
WritePart == pc = "write" /\ Cur.n < NParts /\ Put([v |-> run, n |-> Cur.n + 1]) /\ UNCHANGED <<pc, run, res, before>>
Fail == /\ pc = "write" /\ Cur.n < NParts
        /\ IF Swallow THEN pc' = "close" /\ UNCHANGED res ELSE pc' = "end" /\ res' = "raised"
        /\ UNCHANGED <<path, tmp, run, before>>
Close == pc = "write" /\ (Cur.n = NParts \/ (EarlyRename /\ Cur.n = NParts - 1)) /\ pc' = "close" /\ UNCHANGED <<path, tmp, run, res, before>>
Rename == pc = "close" /\ pc' = "end" /\ res' = "returned" /\ (IF Direct THEN UNCHANGED <<path, tmp>> ELSE path' = tmp /\ tmp' = None) /\ UNCHANGED <<run, before>>
Crash == pc \in {"start", "write", "close"} /\ pc' = "end" /\ res' = "killed" /\ UNCHANGED <<path, tmp, run, before>>
Again == pc = "end" /\ run < NRuns /\ run' = run + 1 /\ pc' = "start" /\ res' = "running" /\ before' = path /\ UNCHANGED <<path, tmp>>
Next == Open \/ WritePart \/ Fail \/ Close \/ Rename \/ Crash \/ Again
Spec == Init /\ [][Next]_vars

\* the property: what may be seen at the path, and what the end of a run means
Seen(b, v, p) == p = b \/ p = Whole(v)
AtEveryInstant == Seen(before, run, path)
Complete == path = None \/ path.n = NParts
ReturnMeansDone == res = "returned" => path = Whole(run)
Safe == AtEveryInstant /\ Complete /\ ReturnMeansDone
\* a run that nothing happens to is not left without its result
CanFinish == pc = "close" => ENABLED Rename
==============================================================================
