-------------------------------- MODULE T_Rows --------------------------------
(* One event per run of rrdesi with all its outputs.  Row alignment as in Rows *)
(* (every table in the order of the targets), selection as in Reader.          *)
(*  files, sel, first, n: as in Reader;  red, mred, det: identifiers in the    *)
(*  catalog, in the model file and the best rows of the details;  fib, tsnr:   *)
(*  <<file, target>> of the rows of the tables;  cat, mcat, dcat: the values   *)
(*  of the rows (interned);  fit[i]: row i has a fit;                          *)
(*  model[b][i]: "own" the reference model of target i, "zero", "other"        *)
EXTENDS TraceBase
VARIABLE l
NT == 0
NR == 0
fs == <<>>
sl == <<>>
done == TRUE
R == INSTANCE Reader

JudgeRun(e) ==
    LET T == R!Targets(e.files, e.sel, e.first, e.n)
        go == e.ok
        al == go /\ e.red = T
    IN
    << <<"the run completes", e.ok>>,
       <<"the catalog has one row per selected target in order", go => e.red = T>>,
       <<"the fiber table follows the catalog", al => e.fib = R!FiberRows(e.files, e.sel, e.first, e.n)>>,
       <<"the score table follows the catalog", al => e.tsnr = R!FiberRows(e.files, e.sel, e.first, e.n)>>,
       <<"the exposure table has those of the targets", go => e.exps = R!ExpRows(e.files, e.sel, e.first, e.n)>>,
       <<"the headers carry the identification of the input", \A i \in 1 .. Len(e.heads) : e.heads[i]>>,
       <<"redshifts of catalog and details are the same number", \A i \in 1 .. Len(e.zsame) : e.zsame[i]>>,
       <<"the model file has the rows of the catalog", (al /\ e.hasmodel) => (e.mred = T /\ e.mcat = e.cat)>>,
       <<"the best fits of the details are the rows of the catalog", (al /\ e.hasdet) => (Rng(e.det) = Rng(T) /\ Len(e.det) = Len(T)
             /\ \A i \in 1 .. Len(T) : \E j \in 1 .. Len(T) : e.det[j] = T[i] /\ e.dcat[j] = e.cat[i])>>,
       <<"one model image per wavelength grid", (go /\ e.hasmodel) => Rng(e.mbands) = Rng(e.bands)>>,
       <<"one model row per row of the catalog", (al /\ e.hasmodel) => \A b \in 1 .. Len(e.model) : Len(e.model[b]) = Len(T)>>,
       <<"the model row is the best fit of the target", (al /\ e.hasmodel) => \A b \in 1 .. Len(e.model) : \A i \in 1 .. Len(e.model[b]) : e.fit[i] => e.model[b][i] = "own">>,
       <<"the model is zero without a fit", (al /\ e.hasmodel) => \A b \in 1 .. Len(e.model) : \A i \in 1 .. Len(e.model[b]) : ~e.fit[i] => e.model[b][i] = "zero">> >>
\* models evaluated for given best fits (kind "eval")
JudgeEval(e) ==
    << <<"models are evaluated", e.ok>>,
       <<"models of all targets", e.ok => e.local = e.ids>>,
       <<"a model is that of the given fit, zero without coefficients", e.ok => e.got = e.want>> >>
Judge(e) == IF e.kind = "run" THEN JudgeRun(e) ELSE JudgeEval(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
