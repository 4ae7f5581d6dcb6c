------------------------------- MODULE T_History -------------------------------
(* Recorded histories of operations in one process.                              *)
(*  op: the operation, before: those before it; ok: it completed                  *)
(*  got: its interned answer; want: that of a process that did nothing else;       *)
(*  again: what the answer is after all operations of the history                  *)
(*  changed: names of the inputs that are not what they were before it             *)
EXTENDS TraceBase
VARIABLE l
Judge(e) == << <<"the operation completes whatever ran before", e.ok>>,
               <<"the answer does not depend on what ran before", e.ok => e.got = e.want>>,
               <<"an answer is not changed by later operations", e.ok => e.again = e.got>>,
               <<"an operation leaves what it was given as it was", e.changed = <<>> >> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
