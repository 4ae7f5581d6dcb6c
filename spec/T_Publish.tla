------------------------------- MODULE T_Publish -------------------------------
(* Recorded runs of the writers.  steps: sequence of runs                       *)
(*  [run, fault, res (returned/raised/killed), path: number of the run whose    *)
(*   complete result is at the path, 0 nothing, -1 anything else]                *)
EXTENDS TraceBase
VARIABLE l
NParts == 1
NRuns == 1
Direct == FALSE
EarlyRename == FALSE
Swallow == FALSE
path == <<>>
tmp == <<>>
pc == <<>>
run == 0
res == <<>>
before == <<>>
P == INSTANCE Publish

File(v) == IF v = 0 THEN P!None ELSE IF v < 0 THEN [v |-> v, n |-> 0] ELSE P!Whole(v)
Was(e, k) == IF k = 1 THEN P!None ELSE File(e.steps[k - 1].path)
Judge(e) ==
    << <<"the path holds what it held or the complete result", \A k \in 1 .. Len(e.steps) : P!Seen(Was(e, k), e.steps[k].run, File(e.steps[k].path))>>,
       <<"a normal return means the complete result is there", \A k \in 1 .. Len(e.steps) : e.steps[k].res = "returned" => File(e.steps[k].path) = P!Whole(e.steps[k].run)>>,
       <<"a failed write is reported", \A k \in 1 .. Len(e.steps) : e.steps[k].res = "raised" => e.steps[k].fault = "error">>,
       <<"a run that nothing happens to completes", \A k \in 1 .. Len(e.steps) : e.steps[k].fault = "none" => e.steps[k].res = "returned">> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
