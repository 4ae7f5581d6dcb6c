------------------------------- MODULE G_History -------------------------------
(* Histories that have as many different pairs of operations in direct sequence  *)
(* as their length allows, as JSON.  Operations are 1 .. NOps.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NOps, Len0
VARIABLES hist, seen
Init == hist = <<>> /\ seen = {}
Free(a) == { b \in 1 .. NOps : <<a, b>> \notin seen }
Ops == IF hist = <<>> THEN 1 .. NOps
       ELSE LET f == Free(hist[Len(hist)]) IN IF f = {} THEN 1 .. NOps ELSE f
Next == /\ Len(hist) < Len0
        /\ \E b \in Ops : /\ hist' = Append(hist, b)
                          /\ seen' = IF hist = <<>> THEN seen ELSE seen \union {<<hist[Len(hist)], b>>}
                          /\ (IF Len(hist') = Len0 THEN PrintT(ToJson([ops |-> hist'])) ELSE TRUE)
Spec == Init /\ [][Next]_<<hist, seen>>
==============================================================================
