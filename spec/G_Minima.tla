------------------------------- MODULE G_Minima -------------------------------
(* All scans of length 1..L with values 0..V, printed as JSON.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L, V
ASSUME \A n \in 1 .. L : \A s \in [1 .. n -> 0 .. V] : PrintT(ToJson([x |-> s]))
VARIABLE d
Init == d = 0
Next == FALSE /\ d' = d
===============================================================================
