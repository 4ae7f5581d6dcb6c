--------------------------------- MODULE G_Shm ----------------------------------
(* All histories of length N over the operations on a target of two spectra.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N, Ops
VARIABLE h
Init == h = <<>>
Next == Len(h) < N /\ \E o \in Ops : h' = Append(h, o) /\ (Len(h') = N => PrintT(ToJson([h |-> h'])))
Spec == Init /\ [][Next]_h
==============================================================================
