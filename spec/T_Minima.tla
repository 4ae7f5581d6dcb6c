------------------------------- MODULE T_Minima -------------------------------
(* Judges find_minima ("minima": x, got = indices from 1) and fitz ("fitz":   *)
(* scan x at redshifts zs, refinement ref of each local minimum with the id   *)
(* of the full row it gives, got = ids of the returned rows in order).        *)
EXTENDS TraceBase
VARIABLE l
N == 0
V == 0
NMin == 0
Lim == 0
UU == 0
Refine == TRUE
x == 0
ref == 0
rem == 0
acc == 0
M == INSTANCE Minima

JudgeMin(e) ==
    << <<"the minima are the local minima, edges and plateaus included", e.ok /\ Rng(e.got) = M!MinimaOf(e.x)>>,
       <<"each minimum once", e.ok => NoDup(e.got)>>,
       <<"in increasing order of value", (e.ok /\ Rng(e.got) \subseteq 1 .. Len(e.x)) => \A i \in 1 .. Len(e.got) - 1 : e.x[e.got[i]] <= e.x[e.got[i + 1]]>> >>
JudgeFitz(e) ==
    LET out == M!Outcomes(M!MinimaOf(e.x), {}, e.nmin, e.x, e.zs, e.ref, e.lim, e.u)
        ids(a) == { e.rid[i] : i \in a } IN
    << <<"every row is the refinement of a local minimum", e.ok /\ \A i \in 1 .. Len(e.got) : e.got[i] \in ids(M!MinimaOf(e.x))>>,
       <<"the lowest, well separated minima are chosen", e.ok => \E a \in out : ids(a) = Rng(e.got) /\ Cardinality(a) = Len(e.got)>>,
       <<"at most the requested number", e.ok => Len(e.got) <= e.nmin>>,
       <<"rows are sorted by chi2", e.ok => \A i \in 1 .. Len(e.chi) - 1 : e.chi[i] <= e.chi[i + 1]>>,
       <<"candidates are a velocity separation apart", e.ok => \A i, j \in 1 .. Len(e.z) : i # j =>
             (~M!Close(e.z[i], e.z[j], e.lim, e.u) \/ ~M!Close(e.z[j], e.z[i], e.lim, e.u))>> >>
Judge(e) == CASE e.kind = "minima" -> JudgeMin(e) [] e.kind = "fitz" -> JudgeFitz(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================
