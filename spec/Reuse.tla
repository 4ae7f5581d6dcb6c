--------------------------------- MODULE Reuse ---------------------------------
(* A run with a stored scan.  Every process reads the stored scan, keeps the     *)
(* entries of its own targets, adds the fits of its own targets, and the root    *)
(* merges what the processes hand over, one after the other.                     *)
(* The scan of target t is the value t; its fit is the value fit(scan).          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Stored,      \* targets in the stored scan
          NProc,
          KeepAll      \* processes keep the whole stored scan   (wrong)
VARIABLES owner,       \* current targets -> process (0: not in this run)
          work,        \* process -> [target -> [scan, fit]]
          pc, merged, report
vars == <<owner, work, pc, merged, report>>
Local(p) == { t \in Stored : owner[t] = p }
Current == { t \in Stored : owner[t] # 0 }
NoFit == "none"
Init == /\ owner \in [Stored -> 0 .. NProc] /\ \E t \in Stored : owner[t] # 0
        /\ work = [p \in 1 .. NProc |-> <<>>] /\ pc = [p \in 1 .. NProc |-> "load"] /\ merged = 0 /\ report = <<>>
Load(p) == /\ pc[p] = "load" /\ pc' = [pc EXCEPT ![p] = "fit"]
           /\ work' = [work EXCEPT ![p] = [t \in (IF KeepAll THEN Stored ELSE Local(p)) |-> [scan |-> t, fit |-> NoFit]]]
           /\ UNCHANGED <<owner, merged, report>>
Fit(p) == /\ pc[p] = "fit" /\ pc' = [pc EXCEPT ![p] = "done"]
          /\ work' = [work EXCEPT ![p] = [t \in DOMAIN work[p] |-> IF t \in Local(p) THEN [scan |-> work[p][t].scan, fit |-> work[p][t].scan] ELSE work[p][t]]]
          /\ UNCHANGED <<owner, merged, report>>
Merge == /\ merged < NProc /\ pc[merged + 1] = "done" /\ merged' = merged + 1
         /\ report' = [t \in DOMAIN report \union DOMAIN work[merged + 1] |-> IF t \in DOMAIN work[merged + 1] THEN work[merged + 1][t] ELSE report[t]]
         /\ UNCHANGED <<owner, work, pc>>
Next == Merge \/ \E p \in 1 .. NProc : Load(p) \/ Fit(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Reported == merged = NProc => /\ DOMAIN report = Current
                              /\ \A t \in Current : report[t] = [scan |-> t, fit |-> t]
Ends == <>(merged = NProc)
==============================================================================
