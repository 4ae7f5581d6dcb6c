-------------------------------- MODULE T_Viewer --------------------------------
(* Recorded sessions of the display.                                                  *)
(* "open": given, fitted: identifiers of the targets and of the fits, kept: those shown, *)
(*   at: the selection.                                                                *)
(* "key": cnt: number of fits of each target, before, key, after: the selection; drawn:  *)
(*   whether the display changed, view: whether the axes stayed where the user put them;  *)
(*   told: the target was listed (key d).                                               *)
(* "show": what is displayed for the selected fit: see the fields.                       *)
EXTENDS TraceBase
VARIABLE l
N == 1
K == 1
KeepNum == FALSE
NoCircle == FALSE
Past == FALSE
cnt == <<>>
sel == <<>>
drawn == <<>>
V == INSTANCE Viewer
Judge(e) ==
    IF e.kind = "open" THEN
        << <<"the targets with fits are shown in the order given", e.kept = V!Kept(e.given, e.fitted)>>,
           <<"the best fit of the first target is shown first", e.at = <<1, 0>> >> >>
    ELSE IF e.kind = "key" THEN
        << <<"no key fails", e.ok>>,
           <<"a key leads to the target and fit it should", e.after = V!Press(e.before, e.key, e.cnt)>>,
           <<"the display stays where the user put it while the target stays", V!KeepsView(e.before, e.key, e.cnt) => e.view>>,
           <<"another target is shown in full", (~V!KeepsView(e.before, e.key, e.cnt)) => ~e.view>>,
           <<"details of the target are listed", e.key = "d" => e.told>> >>
    ELSE IF e.kind = "show" THEN
        << <<"the spectra of the target are shown, without pixels that have no weight", e.flux>>,
           <<"the model of the selected fit is shown", e.model>>,
           <<"the scans of the target are shown with their penalties", e.scan>>,
           <<"all fits of the target are marked", e.marks>>,
           <<"target, type and redshift are named", e.named>>,
           <<"exactly the warnings of the fit are named", Rng(e.flags) = Rng(e.wanted)>>,
           <<"the true redshift is that of the target", e.truth>>,
           <<"looking does not change the spectra", e.kept>> >>
    ELSE << <<"the command shows the targets asked for", e.ok /\ e.ids = e.want>>, <<"their spectra", e.spectra = e.nspectra>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
