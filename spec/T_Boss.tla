--------------------------------- MODULE T_Boss ----------------------------------
(* Recorded readings of BOSS files and catalogs.                                      *)
(* "id": plate, date, fiber; parts: the digits of the identifier; back: decoded.        *)
(* "read": units in reading order, object: targets are objects; sel: requested names     *)
(*   (<<>>: all), fibers: requested fibers (<<>>: all); targets: [name, brick, spectra]    *)
(*   with spectra <<unit, fiber>> recognised by their data; wave, weight, res: these are     *)
(*   what the files say; meta: rows of the table of metadata [name, brick].                 *)
(* "run": rrboss; names: targets of the run (in increasing order), first, n: range.          *)
EXTENDS TraceBase
VARIABLE l
Half == 500
Rf == 10000
Rd == 100000
FMax == 1000
DMax == 99999
PMax == 99999
ByPosition == FALSE
NoModulo == FALSE
FirstPlate == FALSE
Replace == FALSE
units == <<>>
frames == FALSE
byobject == FALSE
want == {}
k == 0
j == 0
dic == <<>>
B == INSTANCE Boss
RECURSIVE Less(_, _, _)
Less(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Less(a, b, i + 1)
Increasing(s) == \A i \in 1 .. Len(s) - 1 : Less(s[i], s[i + 1], 1)
\* the unit with the requested fibers only
RECURSIVE Keep(_, _, _, _)
Keep(f, g, S, i) == IF i > Len(f) THEN <<>> ELSE (IF f[i] \in S THEN <<g[i]>> ELSE <<>>) \o Keep(f, g, S, i + 1)
Cut(us, S) == IF S = {} THEN us ELSE [n \in 1 .. Len(us) |-> [us[n] EXCEPT !.fibers = Keep(@, @, S, 1), !.things = Keep(us[n].fibers, @, S, 1)]]
Wanted(e, us) == IF e.sel = <<>> THEN B!Names(us, e.object) ELSE Rng(e.sel)
NamesOf(s) == [i \in 1 .. Len(s) |-> s[i].name]
Part(s, first, n) == LET a == IF n < 0 THEN Len(s) ELSE Min(Len(s), first + n) IN SubSeq(s, first + 1, a)
Judge(e) ==
    IF e.kind = "id" THEN << <<"identifiers hold plate, date and fiber", e.parts = <<e.plate, e.mjd, e.fiber>> >>,
                             <<"identifiers give back plate, date and fiber", e.back = <<e.plate, e.mjd, e.fiber>> >> >>
    ELSE IF e.kind = "read" THEN
         LET us == Cut(e.units, Rng(e.fibers)) IN
         << <<"the files are read", e.ok>>,
            <<"every requested fiber is a target", e.ok => Rng(NamesOf(e.targets)) = Wanted(e, us)>>,
            <<"targets are in increasing order, each once", e.ok => Increasing(NamesOf(e.targets))>>,
            <<"a target has the spectra of its fiber", e.ok => \A i \in 1 .. Len(e.targets) : e.targets[i].spectra = B!Spectra(us, e.targets[i].name, e.object)>>,
            <<"targets carry plate and date", e.ok => \A i \in 1 .. Len(e.targets) : e.targets[i].brick = B!Brick(e.units)>>,
            <<"the table of metadata follows the targets", e.ok => e.meta = [i \in 1 .. Len(e.targets) |-> [name |-> e.targets[i].name, brick |-> e.targets[i].brick]]>>,
            <<"wavelengths of the files within the range of the camera", e.wave>>,
            <<"weights of the files, masked pixels have none", e.weight>>,
            <<"resolution of the dispersion in the files", e.res>> >>
    ELSE << <<"every combination of options completes", e.ok>>,
            <<"one row per selected target", e.ok => (NoDup(e.rows) /\ Rng(e.rows) = Rng(Part(e.names, e.first, e.n)))>>,
            <<"a row is the fit of its target", e.fit>>,
            <<"rows carry plate and date", e.brick>>,
            <<"the details hold the same fits", e.details>>,
            <<"the header names templates and archetypes with their versions", e.header>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
