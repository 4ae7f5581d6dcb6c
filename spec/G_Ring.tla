------------------------------- MODULE G_Ring --------------------------------
(* Random behaviours of Ring: the order in which the ranks run, as JSON.      *)
EXTENDS Ring, TLC, Json
VARIABLE hist
GInit == Init /\ hist = <<>>
GNext == \E r \in Ranks : Step(r) /\ hist' = Append(hist, r)
                          /\ (IF \A q \in Ranks : pc'[q] = "stop" THEN PrintT(ToJson([order |-> hist'])) ELSE TRUE)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
==============================================================================
