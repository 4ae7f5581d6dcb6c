------------------------------- MODULE T_Dist --------------------------------
(* Judges recorded calls of distribute_work / distribute_targets /            *)
(* weighted_partition.  Event: ids, ws (weight of each id), cap (capacity     *)
(* of each process, integer), out (ids given to each process), outcome.       *)
EXTENDS TraceBase
MaxItems == 0  MaxW == 0  MaxProc == 1  MaxCap == 1
VARIABLES w, cap, todo, load, where
D == INSTANCE Dist
VARIABLE l

Desc(ws) == SortSeq(ws, LAMBDA a, b : a > b)
Weight(e, id) == e.ws[CHOOSE i \in 1 .. Len(e.ids) : e.ids[i] = id]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

Partition(e) ==
    LET all == Flatten(e.out) IN Len(all) = Len(e.ids) /\ Rng(all) = Rng(e.ids) /\ NoDup(all)
GreedyRight(e) ==
    LET want == D!GreedyOutcome(Desc(e.ws), e.cap)
    IN \A p \in 1 .. Len(e.cap) : Desc([k \in 1 .. Len(e.out[p]) |-> Weight(e, e.out[p][k])]) = want[p]
Loads(e) == SortSeq([p \in 1 .. Len(e.out) |-> SumSeq([k \in 1 .. Len(e.out[p]) |-> Weight(e, e.out[p][k])])], LAMBDA a, b : a > b)
WantLoads(e) == LET want == D!GreedyOutcome(Desc(e.ws), e.cap) IN SortSeq([p \in 1 .. Len(want) |-> SumSeq(want[p])], LAMBDA a, b : a > b)

Judge(e) ==
    IF e.outcome # "ok" THEN << <<"completes", FALSE>> >>
    ELSE << <<"one list per process", Len(e.out) = Len(e.cap)>>,
            <<"every item on exactly one process", Partition(e)>>,
            <<"greedy placement", ~Partition(e) \/ Len(e.out) # Len(e.cap) \/
                 (IF e.kind = "loads" THEN Loads(e) = WantLoads(e) ELSE GreedyRight(e))>> >>

Init == l = 1 /\ w = 0 /\ cap = 0 /\ todo = 0 /\ load = 0 /\ where = 0
Next == /\ l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
        /\ UNCHANGED <<w, cap, todo, load, where>>
Spec == Init /\ [][Next]_<<l, w, cap, todo, load, where>>
==============================================================================
