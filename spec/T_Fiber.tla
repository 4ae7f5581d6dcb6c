-------------------------------- MODULE T_Fiber --------------------------------
(* One event per target: its status names, object type, the rows of the same  *)
(* run with clean status (fit), and the rows of the output (got).             *)
EXTENDS TraceBase
VARIABLE l
st == {}
o == ""
done == TRUE
F == INSTANCE Fiber

Row(r) == [type |-> r.type, sub |-> r.sub, z |-> r.z, coeff |-> r.coeff, method |-> r.method, zw |-> Rng(r.zw), rest |-> r.rest]
Judge(e) ==
    LET s == Rng(e.status)
        want == [i \in 1 .. Len(e.fit) |-> F!OutRow(Row(e.fit[i]), s, e.obj)]
        same == Len(e.got) = Len(e.fit)
        got == [i \in 1 .. Len(e.got) |-> Row(e.got[i])] IN
    << <<"the run completes", e.ok>>,
       <<"the target has the same number of rows as without the status", ~e.ok \/ same>>,
       <<"the warnings are those of the fit and those of the status", ~(e.ok /\ same) \/ \A i \in 1 .. Len(got) : got[i].zw = want[i].zw>>,
       <<"a target without usable data has no fit", ~(e.ok /\ same) \/ ~F!NoData(s, e.obj) \/ \A i \in 1 .. Len(got) : [got[i] EXCEPT !.zw = {}, !.rest = 0] = [want[i] EXCEPT !.zw = {}, !.rest = 0]>>,
       <<"other targets keep their fit", ~(e.ok /\ same) \/ F!NoData(s, e.obj) \/ \A i \in 1 .. Len(got) : [got[i] EXCEPT !.zw = {}] = [want[i] EXCEPT !.zw = {}]>>,
       <<"the other columns are kept", ~(e.ok /\ same) \/ \A i \in 1 .. Len(got) : got[i].rest = want[i].rest>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
================================================================================
