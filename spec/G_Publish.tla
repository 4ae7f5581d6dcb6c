------------------------------- MODULE G_Publish -------------------------------
(* Histories of runs in one directory: every sequence of runs with what happens *)
(* to each (nothing, killed, failed write) and where (start, middle, end).       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT N
Faults == {<<"none", "x">>} \union ({"kill", "error"} \X {"first", "middle", "last"})
VARIABLE h
Init == h = <<>>
Next == Len(h) < N /\ \E f \in Faults : h' = Append(h, [fault |-> f[1], at |-> f[2]]) /\ (Len(h') = N => PrintT(ToJson([h |-> h'])))
Spec == Init /\ [][Next]_h
==============================================================================
