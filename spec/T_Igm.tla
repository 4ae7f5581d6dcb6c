---------------------------------- MODULE T_Igm ----------------------------------
(* Recorded evaluations of the transmission.  F, W: redshifts and wavelengths (see   *)
(* Igm.tla); zlist, wlist: given as arrays; always: an array was asked for; none:     *)
(* "nothing to apply" was returned; tau, one, ok: optical depth in 1e-6 (at most      *)
(* Cap), exactly 1, between 0 and 1; the tables of the model hold its optical depths. *)
(* "scan": chi-squared of whole scans (1e-6 of the largest of a target), found and   *)
(* computed apart from redrock.  "scaled": transmissions (1e-6) of the model of Inoue  *)
(* et al. with scaled optical depths, directly and tabulated.                          *)
EXTENDS TraceBase
VARIABLE l
Waves == {}
Factors == {}
Lines == <<>>
ByFirst == FALSE
Closed == FALSE
todo == <<>>
rows == <<>>
zs == <<>>
I == INSTANCE Igm
Cap == 18000000
NoModel(e) == e.model \in {"None", "null"}
Expect(e, i, j) ==
    IF NoModel(e) THEN 0
    ELSE IF e.model = "Inoue14" THEN I!Forest(e.W[j], e.F[i], e.lines, e.laf[j]) + I!Dense(e.W[j], e.F[i], e.lines, e.dla[j]) + I!Continuum(e.W[j], e.F[i], e.cont[i][j])
    ELSE I!Series(e.W[j], e.F[i], e.lines, e.t[j])
Near(a, b) == \/ a >= Cap /\ b >= Cap
              \/ Abs(a - b) <= 80 + b \div 100000
Free(e, i, j) == NoModel(e) \/ ~I!Any(e.W[j], e.F[i], e.lines)
Shape(e) == (IF e.zlist THEN <<Len(e.F)>> ELSE <<>>) \o (IF e.wlist THEN <<Len(e.W)>> ELSE <<>>)
Z(e) == 1 .. Len(e.F)
V(e) == 1 .. Len(e.W)
Judge(e) ==
    IF e.kind = "scan" THEN << <<"the scan completes", e.done>>,
            <<"the absorption is applied to every band at every redshift of a scan", \A i \in DOMAIN e.got : Len(e.got[i]) = Len(e.want[i]) /\ \A j \in DOMAIN e.got[i] : Abs(e.got[i][j] - e.want[i][j]) <= 20>> >>
    ELSE IF e.kind = "scaled" THEN << <<"the scaled model can be evaluated and tabulated", e.done>>,
            <<"scaled and tabulated models have the optical depth of the model", \A i \in DOMAIN e.got : Len(e.got[i]) = Len(e.want[i]) /\ \A j \in DOMAIN e.got[i] : Abs(e.got[i][j] - e.want[i][j]) <= 20>> >>
    ELSE IF e.kind = "unknown" THEN << <<"an unknown model is refused", ~e.done>> >>
    ELSE << <<"the evaluation completes", e.done>>,
            <<"nothing to apply only when every value is one", e.none => ~e.always /\ \A i \in Z(e) : \A j \in V(e) : Free(e, i, j)>>,
            <<"shape of the result", (e.done /\ ~e.none) => e.shape = Shape(e)>>,
            <<"transmission between 0 and 1", (e.done /\ ~e.none) => \A i \in Z(e) : \A j \in V(e) : e.ok[i][j]>>,
            <<"exactly one redward of the first line", (e.done /\ ~e.none) => \A i \in Z(e) : \A j \in V(e) : Free(e, i, j) => e.one[i][j]>>,
            <<"optical depth of the model at every redshift and wavelength", (e.done /\ ~e.none) => \A i \in Z(e) : \A j \in V(e) : Near(e.tau[i][j], Expect(e, i, j))>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
