------------------------------- MODULE T_Pool --------------------------------
(* Judges recorded runs with workers or ranks.                                *)
(*  "attr":  targets with own reference (want) and what was reported (got)    *)
(*  "fault": a run in which one worker failed (fault) or none                 *)
(*  "same":  a parallel run against the serial run (columns and rows)         *)
EXTENDS TraceBase
VARIABLE l

JudgeAttr(e) ==
    << <<"the run completes", e.outcome = "ok">>,
       <<"no target is lost or added", e.outcome # "ok" \/ (Rng(e.reported) = Rng(e.ids) /\ Len(e.reported) = Len(e.ids))>>,
       <<"scan of a target is computed from its own spectra", e.outcome # "ok" \/ \A i \in 1 .. Len(e.scan) : e.scan[i].got = e.scan[i].want>>,
       <<"fit of a target is computed from its own spectra", e.outcome # "ok" \/ \A i \in 1 .. Len(e.fit) : e.fit[i].got = e.fit[i].want>>,
       <<"metadata of a target are its own", e.outcome # "ok" \/ \A i \in 1 .. Len(e.meta) : e.meta[i].got = e.meta[i].want>> >>
JudgeFault(e) ==
    << <<"the call ends in bounded time", e.outcome # "hang">>,
       <<"a failed worker is an error", e.fault = "none" \/ e.outcome # "ok">>,
       <<"nothing is missing from the results", e.outcome # "ok" \/ e.missing = <<>> >>,
       <<"a run without failure succeeds", e.fault # "none" \/ e.outcome = "ok">> >>
JudgeSame(e) ==
    << <<"the run completes", e.outcome = "ok">>,
       <<"same columns", e.outcome # "ok" \/ e.cols = e.refcols>>,
       <<"same rows in the same order", e.outcome # "ok" \/ e.cols # e.refcols \/ e.rows = e.refrows>>,
       <<"same scan", e.outcome # "ok" \/ e.scan = e.refscan>>,
       <<"only the root returns results", e.outcome # "ok" \/ \A i \in 1 .. Len(e.others) : e.others[i] = "none">> >>
Judge(e) == CASE e.kind = "attr" -> JudgeAttr(e) [] e.kind = "fault" -> JudgeFault(e) [] e.kind = "same" -> JudgeSame(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
