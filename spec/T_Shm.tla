--------------------------------- MODULE T_Shm ----------------------------------
(* Recorded histories.  steps: [op, ok, state] after each operation, state[i] =   *)
(*  interned [wave, flux, ivar] of spectrum i as seen in place;                   *)
(*  uses: interned resolutions obtained (in the process or a child), want0 the    *)
(*  originals;  last: everything after unpacking;  order: bands of the spectra    *)
EXTENDS TraceBase
VARIABLE l
Judge(e) ==
    << <<"every operation succeeds", \A k \in 1 .. Len(e.steps) : e.steps[k].ok>>,
       <<"arrays are unchanged in place", \A k \in 1 .. Len(e.steps) : e.steps[k].ok => e.steps[k].state = e.arrays>>,
       <<"every use sees the same data", \A k \in 1 .. Len(e.steps) : \A j \in 1 .. Len(e.steps[k].uses) : e.steps[k].uses[j] = e.used[e.steps[k].who[j]]>>,
       <<"unpacking gives back everything", e.last = e.first>>,
       <<"spectra keep their order", e.order = e.order0>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
