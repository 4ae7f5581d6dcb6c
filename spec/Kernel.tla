------------------------------ MODULE Kernel ---------------------------------
(* A kernel on a GPU that computes Cells results, each from all Rows, with    *)
(* Par threads per result (redrock.zscan: batch_dot_product_3d3d with Par > 1,*)
(* the other kernels with Par = 1).  The grid has as many blocks as needed,   *)
(* threads run in any order and interleaved; every thread adds the sum over   *)
(* its own part of the rows to its cell.                                      *)
(*                                                                            *)
(* A result is the multiset of rows added to it.  Flags switch the kernel to  *)
(* broken variants: Guard (threads beyond the last return at once), Atomic    *)
(* (one step adds), Rest (the last part takes what the division leaves),      *)
(* RoundUp (blocks: rounded up).                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cells, Rows, Par, Block, Guard, Atomic, Rest, RoundUp
VARIABLES pc, loc, M, outside
vars == <<pc, loc, M, outside>>

N == Cells * Par
Blocks == IF RoundUp THEN (N + Block - 1) \div Block ELSE N \div Block
Threads == 0 .. (Blocks * Block - 1)
Cell(i) == i \div Par
Slot(i) == (i % Block) % Par            \* position among the threads of a cell, from the position in the block
First(i) == Slot(i) * (Rows \div Par)
Last(i) == IF Rest /\ Slot(i) = Par - 1 THEN Rows ELSE (Slot(i) + 1) * (Rows \div Par)
Part(i) == { r \in 0 .. Rows - 1 : First(i) <= r /\ r < Last(i) }
None == [r \in 0 .. Rows - 1 |-> 0]
With(m, S) == [r \in 0 .. Rows - 1 |-> m[r] + (IF r \in S THEN 1 ELSE 0)]

Init == /\ pc = [i \in Threads |-> "start"] /\ loc = [i \in Threads |-> None]
        /\ M = [c \in 0 .. Cells - 1 |-> None] /\ outside = FALSE
Start(i) == /\ pc[i] = "start"
            /\ IF i >= N THEN /\ pc' = [pc EXCEPT ![i] = "done"]
                              /\ outside' = (outside \/ ~Guard)
                              /\ UNCHANGED <<loc, M>>
               ELSE /\ UNCHANGED outside
                    /\ IF Atomic THEN /\ M' = [M EXCEPT ![Cell(i)] = With(@, Part(i))]
                                      /\ pc' = [pc EXCEPT ![i] = "done"] /\ UNCHANGED loc
                       ELSE /\ loc' = [loc EXCEPT ![i] = M[Cell(i)]]
                            /\ pc' = [pc EXCEPT ![i] = "read"] /\ UNCHANGED M
Write(i) == /\ pc[i] = "read"
            /\ M' = [M EXCEPT ![Cell(i)] = With(loc[i], Part(i))]
            /\ pc' = [pc EXCEPT ![i] = "done"]
            /\ UNCHANGED <<loc, outside>>
Next == \E i \in Threads : Start(i) \/ Write(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Finished == \A i \in Threads : pc[i] = "done"
InsideOnly == ~outside
EveryRowOnce == Finished => \A c \in 0 .. Cells - 1 : \A r \in 0 .. Rows - 1 : M[c][r] = 1
NeverTwice == \A c \in 0 .. Cells - 1 : \A r \in 0 .. Rows - 1 : M[c][r] <= 1
Terminates == <>Finished
==============================================================================
