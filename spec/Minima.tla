-------------------------------- MODULE Minima --------------------------------
(* Choice of the candidate redshifts of one template from its scan.           *)
(* The scan is a sequence of values x over redshifts zs (integers k, z=k/U).  *)
(* Each local minimum i has a refined redshift ref[i].  Candidates are taken  *)
(* in increasing order of value (any order among equals), skipping those      *)
(* closer than the limit to an accepted one, before and after refinement.     *)
EXTENDS Integers, Sequences, FiniteSets
LIGHT == 2998                   \* speed of light in units of 100 km/s

MinimaOf(x) == { i \in 1 .. Len(x) : (i = 1 \/ x[i] <= x[i - 1]) /\ (i = Len(x) \/ x[i] <= x[i + 1]) }

AbsV(a) == IF a < 0 THEN -a ELSE a
\* |c (z - zref) / (1 + zref)| < lim (in units of 100 km/s)
Close(k, kref, lim, U) == LIGHT * AbsV(k - kref) < lim * (U + kref)
CloseToAny(k, acc, ref, lim, U) == \E j \in acc : Close(k, ref[j], lim, U)

Lowest(S, x) == { i \in S : \A j \in S : x[i] <= x[j] }
Accept(i, acc, zs, ref, lim, U) ==
    /\ ~CloseToAny(zs[i], acc, ref, lim, U)
    /\ ~CloseToAny(ref[i], acc, ref, lim, U)

\* all possible sets of accepted minima
RECURSIVE Outcomes(_, _, _, _, _, _, _, _)
Outcomes(rem, acc, n, x, zs, ref, lim, U) ==
    IF rem = {} \/ Cardinality(acc) = n THEN {acc}
    ELSE UNION { Outcomes(rem \ {i}, IF Accept(i, acc, zs, ref, lim, U) THEN acc \union {i} ELSE acc, n, x, zs, ref, lim, U)
                 : i \in Lowest(rem, x) }
-------------------------------------------------------------------------------
(* The same as a state machine over all small scans, for model checking.      *)
CONSTANTS N, V, NMin, Lim, UU, Refine    \* Refine = FALSE: wrong variant, tests only before refinement
VARIABLES x, ref, rem, acc
vars == <<x, ref, rem, acc>>
ZS == [i \in 1 .. N |-> 10 * i]
Init == /\ x \in [1 .. N -> 0 .. V]
        /\ \E d \in [1 .. N -> {-7, 0, 7}] : ref = [i \in 1 .. N |-> 10 * i + d[i]]
        /\ rem = MinimaOf(x) /\ acc = {}
Take == /\ rem # {} /\ Cardinality(acc) < NMin
        /\ \E i \in Lowest(rem, x) :
             /\ rem' = rem \ {i}
             /\ acc' = IF (IF Refine THEN Accept(i, acc, ZS, ref, Lim, UU) ELSE ~CloseToAny(ZS[i], acc, ref, Lim, UU))
                       THEN acc \union {i} ELSE acc
        /\ UNCHANGED <<x, ref>>
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == rem = {} \/ Cardinality(acc) = NMin
Separated == \A i, j \in acc : i # j => (~Close(ref[i], ref[j], Lim, UU) \/ ~Close(ref[j], ref[i], Lim, UU))
GlobalFirst == acc # {} => \E i \in acc : \A j \in 1 .. N : x[i] <= x[j]
NotTooMany == Cardinality(acc) <= NMin
\* nothing lower and well separated is passed over
Complete == Done => \A i \in MinimaOf(x) \ acc :
               \/ CloseToAny(ZS[i], acc, ref, Lim, UU) \/ CloseToAny(ref[i], acc, ref, Lim, UU)
               \/ (Cardinality(acc) = NMin /\ \A j \in acc : x[j] <= x[i])
InOutcomes == Done => acc \in Outcomes(MinimaOf(x), {}, NMin, x, ZS, ref, Lim, UU)
Ends == <>Done
===============================================================================
