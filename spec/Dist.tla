------------------------------- MODULE Dist ----------------------------------
(* Distribution of weighted work items over processes with capacities         *)
(* (redrock.utils.distribute_work, used for targets over workers and ranks;   *)
(* the same with equal capacities for files over ranks in wrap-redrock).      *)
(*                                                                            *)
(* One action per placement: any heaviest item that is still to be placed     *)
(* goes to the process with the smallest (load + w) / capacity, ties to the   *)
(* larger capacity, then to the lower process number.  A process without      *)
(* capacity (a rank without a GPU) gets nothing.  The order among items       *)
(* of equal weight is left open: it does not change the loads.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxItems, MaxW, MaxProc, MaxCap

VARIABLES w,      \* item -> weight
          cap,    \* process -> capacity
          todo,   \* items still to be placed
          load,   \* process -> load
          where   \* item -> process (0: not placed)
vars == <<w, cap, todo, load, where>>

\* does process p come before q for an item of weight x?
Before(ld, cp, x, p, q) ==
    LET a == (ld[p] + x) * cp[q]
        b == (ld[q] + x) * cp[p]
    IN  \/ a < b
        \/ a = b /\ cp[p] > cp[q]
        \/ a = b /\ cp[p] = cp[q] /\ p <= q

Able(cp) == { p \in DOMAIN cp : cp[p] > 0 }
Choice(ld, cp, x) == CHOOSE p \in Able(cp) : \A q \in Able(cp) : Before(ld, cp, x, p, q)

Init == /\ \E n \in 0 .. MaxItems : w \in [1 .. n -> 0 .. MaxW]
        /\ \E m \in 1 .. MaxProc : cap \in { c \in [1 .. m -> 0 .. MaxCap] : Able(c) # {} }
        /\ todo = DOMAIN w
        /\ load = [p \in DOMAIN cap |-> 0]
        /\ where = [i \in DOMAIN w |-> 0]

Place(i) == /\ i \in todo
            /\ \A j \in todo : w[j] <= w[i]
            /\ LET p == Choice(load, cap, w[i])
               IN /\ load' = [load EXCEPT ![p] = @ + w[i]]
                  /\ where' = [where EXCEPT ![i] = p]
            /\ todo' = todo \ {i}
            /\ UNCHANGED <<w, cap>>
Next == \E i \in DOMAIN w : Place(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})

TypeOK == \A i \in DOMAIN w : (i \in todo <=> where[i] = 0)
\* loads are the weights placed
LoadsRight == \A p \in DOMAIN cap : load[p] = SumF(w, { i \in DOMAIN w : where[i] = p })
\* no process carries more than any other would have carried with the last item it received:
\* the load without its lightest item never exceeds the (normalised) load of any other
Balanced == \A p, q \in DOMAIN cap :
              LET mine == { i \in DOMAIN w : where[i] = p } IN
              mine = {} \/
              \E i \in mine : (\A j \in mine : w[j] >= w[i]) /\
                              load[p] * cap[q] <= (load[q] + w[i]) * cap[p]
OnlyAble == \A i \in DOMAIN w : where[i] # 0 => cap[where[i]] > 0
EverythingPlaced == <>(todo = {})

---------------------------------------------------------------------------------
\* The outcome, as a function: how many items of each weight each process receives.
\* ws: weights in decreasing order; result: sequence over processes of sequences of weights
RECURSIVE Greedy(_, _, _, _)
Greedy(ws, cp, ld, acc) ==
    IF ws = <<>> THEN acc
    ELSE LET p == Choice(ld, cp, Head(ws))
         IN Greedy(Tail(ws), cp, [ld EXCEPT ![p] = @ + Head(ws)], [acc EXCEPT ![p] = Append(@, Head(ws))])
GreedyOutcome(ws, cp) == Greedy(ws, cp, [p \in DOMAIN cp |-> 0], [p \in DOMAIN cp |-> <<>>])
================================================================================
