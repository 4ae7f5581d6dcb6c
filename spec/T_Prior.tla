-------------------------------- MODULE T_Prior --------------------------------
(* Recorded priors.                                                             *)
(*  "eval": fn, zs, z0, w (0: target not named), vals: observed values           *)
(*  "run": per target of a run [named, fn, z0, w, added: per template <<zs,       *)
(*    observed difference of the scan>>, same: rows as without prior,             *)
(*    cands: candidates, allowed: fits of the scan with prior, zc: redshifts of   *)
(*    the candidates with the step of their template]                             *)
EXTENDS TraceBase
VARIABLE l
Targets == {}
Kinds == {}
NProc == 0
Everywhere == FALSE
Shared == FALSE
owner == <<>>
done == {}
scan == <<>>
P == INSTANCE Prior
Scale == 100
\* observed numbers are Scale times the value of the specification, rounded
Near(v, x) == Abs(v - Scale * x) <= 2
Match(fn, zs, z0, w, vals) ==
    /\ Len(vals) = Len(zs)
    /\ CASE fn = "gaussian" -> \A i \in 1 .. Len(zs) : Near(vals[i], P!Gauss(zs[i], z0, w))
         [] fn = "lorentzien" -> \A i \in 1 .. Len(zs) : Near(vals[i], P!Lor(zs[i], z0, w))
         [] fn = "tophat" -> vals = P!Hat(zs, z0, w)
JudgeEval(e) ==
    << <<"a prior can be evaluated", e.ok>>,
       <<"documented value of the prior", e.ok /\ e.w > 0 => Match(e.fn, e.zs, e.z0, e.w, e.vals)>>,
       <<"no prior for a target that is not named", e.ok /\ e.w = 0 => \A i \in 1 .. Len(e.vals) : e.vals[i] = 0>> >>
JudgeRun(e) ==
    << <<"a run with priors completes", e.ok>>,
       <<"the prior is added once to every template", e.ok => \A i \in 1 .. Len(e.targets) : LET t == e.targets[i] IN
            t.named => \A k \in 1 .. Len(t.added) : Match(e.fn, t.added[k][1], t.z0, t.w, t.added[k][2])>>,
       <<"a target that is not named is left alone", e.ok => \A i \in 1 .. Len(e.targets) : LET t == e.targets[i] IN
            ~t.named => t.same /\ \A k \in 1 .. Len(t.added) : \A j \in 1 .. Len(t.added[k][2]) : t.added[k][2][j] = 0>>,
       <<"candidates are those of the scan with the prior", e.ok => \A i \in 1 .. Len(e.targets) : LET t == e.targets[i] IN
            t.named => Rng(t.cands) \subseteq Rng(t.allowed) /\ Len(t.cands) > 0>>,
       <<"with a top-hat no candidate starts outside the window", e.ok /\ e.fn = "tophat" => \A i \in 1 .. Len(e.targets) : LET t == e.targets[i] IN
            t.named => \A j \in 1 .. Len(t.zc) : 2 * Abs(t.zc[j][1] - t.z0) <= t.w + 2 * t.zc[j][2]>> >>
Judge(e) == CASE e.kind = "eval" -> JudgeEval(e) [] e.kind = "run" -> JudgeRun(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
