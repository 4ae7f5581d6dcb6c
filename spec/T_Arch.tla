--------------------------------- MODULE T_Arch ----------------------------------
(* Recorded archetype fits.                                                            *)
(* "cand": n archetypes of the type, k asked for, chi: place of each one's chi-squared   *)
(*   among all (equal within the tolerance: same place), known: those that can be        *)
(*   compared, pick: archetypes named by the subtype (0: unknown), free: the best fit of  *)
(*   these is inside the bounds; got, want, again: chi-squared reported, of the fit of    *)
(*   the named ones, of the model evaluated from the row; coeff, poly and wcoeff, wpoly:  *)
(*   coefficients reported and expected (well conditioned fits only); neg, pos: some       *)
(*   archetype coefficient below zero, all above; flag: NEGATIVE_MODEL.                    *)
(* "plain": candidates of a type without archetypes, and those of a run without any.       *)
(* "cands": redshifts of the candidates with and without archetypes.                        *)
(* "run": an option combination.  "split", "eval", "find", "file": the public functions.     *)
EXTENDS TraceBase
VARIABLE l
N == 0
K == 0
Cams == <<>>
Width == 0
Levels == {}
ByIndex == FALSE
ByName == FALSE
Short == FALSE
NoPoly == FALSE
chi == <<>>
phase == ""
pick == <<>>
row == <<>>
model == <<>>
A == INSTANCE Arch
Judge(e) ==
    IF e.kind = "cand" THEN
         << <<"the fit is one of archetypes of its type", e.type /\ e.method>>,
            <<"as many different archetypes as asked for", A!Proper(e.pick, e.n, e.k)>>,
            <<"the archetypes that fit best, best first", A!Best(e.pick, e.chi, e.n, e.k, Rng(e.known))>>,
            <<"chi-squared is that of the named archetypes", e.free => e.got = e.want>>,
            <<"coefficients belong to the named archetypes", (e.free /\ e.well) => e.coeff = e.wcoeff>>,
            <<"polynomials belong to their cameras", (e.free /\ e.well) => e.poly = e.wpoly>>,
            <<"evaluating the row reproduces the fit", e.again = e.got>>,
            <<"no archetype is subtracted", e.low>>,
            <<"negative models are flagged, others not", (e.neg => e.flag) /\ (e.pos => ~e.flag)>>,
            <<"the coefficients of the template are kept", e.pca>> >>
    ELSE IF e.kind = "plain" THEN << <<"types without archetypes are fitted as without", e.with = e.without>>, <<"only archetype fits are flagged", ~e.flag>> >>
    ELSE IF e.kind = "cands" THEN << <<"archetypes do not change the redshifts of the candidates", Rng(e.with) = Rng(e.without) /\ Len(e.with) = Len(e.without)>> >>
    ELSE IF e.kind = "nodata" THEN << <<"a target without data has no model", e.zero>>, <<"a target without data is flagged", e.flag>> >>
    ELSE IF e.kind = "run" THEN << <<"every combination of options completes", e.ok>>,
                                   <<"every target has a row", e.rows>>,
                                   <<"the header lists the archetypes of the run", e.header>>,
                                   <<"the row of the catalog reproduces its chi-squared", e.cat>>,
                                   <<"the model file holds that model", e.mod>>,
                                   <<"the details hold the same fit", e.det>>,
                                   <<"the fits are those of the options asked for", e.asked>> >>
    ELSE IF e.kind = "split" THEN << <<"coefficients split into archetypes and cameras", e.arch = [i \in 1 .. e.n |-> i] /\ e.poly = [c \in 1 .. e.bands |-> [i \in 1 .. e.leg |-> e.n + (c - 1) * e.leg + i]]>> >>
    ELSE IF e.kind = "eval" THEN << <<"evaluation of named archetypes", e.same>> >>
    ELSE IF e.kind = "find" THEN << <<"archetype files are found", e.found = e.expected /\ e.ok>> >>
    ELSE << <<"an archetype file is read as it is", e.flux /\ e.wave /\ e.names /\ e.type>>, <<"the names of archetypes differ", NoDup(e.list)>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
