------------------------------ MODULE T_Gather -------------------------------
(* Judges complete parallel runs of redrock.zfind.  Event: ranks (targets of  *)
(* each rank), order (all target ids), results of every rank.                 *)
EXTENDS TraceBase
VARIABLE l

Flat(ss) == [i \in 1 .. SumSeq([k \in 1 .. Len(ss) |-> Len(ss[k])]) |-> 0]
All(e) == UNION { Rng(e.ranks[k]) : k \in 1 .. Len(e.ranks) }
Total(e) == SumSeq([k \in 1 .. Len(e.ranks) |-> Len(e.ranks[k])])
Judge(e) ==
    << <<"the run completes", e.completed>>,
       <<"no message is left behind", e.left = 0>>,
       <<"only the root returns results", ~e.completed \/ \A r \in 2 .. Len(e.none) : e.none[r]>>,
       <<"the root has every target exactly once", ~e.completed \/ (Len(e.keys) = Total(e) /\ Rng(e.keys) = All(e))>>,
       <<"scans arrive unchanged", ~e.completed \/ e.scanbad = <<>> >>,
       <<"fits arrive unchanged", ~e.completed \/ e.fitbad = <<>> >>,
       <<"the table follows the list of targets", ~e.completed \/ e.tabids = e.order>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
