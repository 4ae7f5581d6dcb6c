------------------------------- MODULE T_Reuse --------------------------------
(* Recorded runs with a stored scan.                                            *)
(*  ids: targets of the run; types: templates of the run                        *)
(*  stored[i][k]: interned stored scan of target i, template k                  *)
(*  gids, gtypes: what is reported; scan[i][k]: reported scan of ids[i]         *)
(*  rows[i]: interned rows of ids[i]; want[i]: those of the serial run over the  *)
(*  whole stored scan;  near[i]: rows agree with the run that made the scan      *)
(*  kind start: got, allowed: fits reported and fits from the stored values       *)
(*  table: order of the targets in the table                                    *)
EXTENDS TraceBase
VARIABLE l
JudgeRun(e) ==
    << <<"a run with a stored scan completes", e.ok>>,
       <<"only the targets of the run are reported", e.ok => (Rng(e.gids) = Rng(e.ids) /\ Len(e.gids) = Len(e.ids))>>,
       <<"only the templates of the run are reported", e.ok => Rng(e.gtypes) = Rng(e.types)>>,
       <<"the scan of a target is the stored one", e.ok => e.scan = e.stored>>,
       <<"the fits do not depend on how the run is spread", e.ok => e.rows = e.want>>,
       <<"rows follow the targets of the run", e.ok => e.table = e.ids>>,
       <<"the fits are those of the original run", e.ok => \A i \in 1 .. Len(e.near) : e.near[i] = "same">> >>
\* whatever the stored values are, the fits start from their minima
JudgeStart(e) ==
    << <<"a run with a stored scan completes", e.ok>>,
       <<"fits start at the minima of the stored scan with its penalty", e.ok => \A i \in 1 .. Len(e.got) :
            Len(e.got[i]) > 0 /\ Rng(e.got[i]) \subseteq Rng(e.allowed[i])>> >>
Judge(e) == IF e.kind = "start" THEN JudgeStart(e) ELSE JudgeRun(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
