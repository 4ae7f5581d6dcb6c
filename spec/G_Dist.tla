------------------------------- MODULE G_Dist --------------------------------
(* Prints every problem of the bounded space; each is replayed into the code. *)
EXTENDS Dist, TLC, Json
GInit == Init /\ PrintT(ToJson([ws |-> w, cap |-> cap]))
GSpec == GInit /\ [][FALSE]_vars
==============================================================================
