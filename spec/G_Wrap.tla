--------------------------------- MODULE G_Wrap ----------------------------------
(* Random histories of Wrap as JSON: outputs present at the beginning, and for each  *)
(* run the attempts with their outcomes and whether the batch was stopped.           *)
EXTENDS Wrap, TLC, Json
VARIABLES h, first
GInit == Init /\ h = <<>> /\ first = [cat |-> cat, det |-> det]
Add(e) == h' = Append(h, e)
GNext == /\ first' = first
         /\ \/ Start /\ Add([t |-> "start", f |-> 0, o |-> "x"])
            \/ \E r \in Ranks, f \in Files, o \in Outcomes : Attempt(r, f, o) /\ Add([t |-> "try", f |-> f, o |-> o])
            \/ Stop /\ Add([t |-> "stop", f |-> 0, o |-> "x"])
            \/ End /\ Add([t |-> "end", f |-> 0, o |-> "x"]) /\ (run = NRuns => PrintT(ToJson([h |-> h', cat |-> first.cat, det |-> first.det])))
            \/ Again /\ h' = h
GSpec == GInit /\ [][GNext]_<<vars, h, first>>
==============================================================================
