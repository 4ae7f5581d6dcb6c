-------------------------------- MODULE G_Viewer --------------------------------
(* Random sequences of keys, as JSON.                                              *)
EXTENDS Viewer, TLC, Json
CONSTANT L
VARIABLE hist
GInit == Init /\ hist = <<>>
\* the last target is left by a key that does nothing as often as by others
GNext == /\ Len(hist) < L
         /\ \E key \in Keys : Key(key) /\ hist' = Append(hist, key)
         /\ (IF Len(hist') = L THEN PrintT(ToJson([cnt |-> cnt, keys |-> hist'])) ELSE TRUE)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
==============================================================================
