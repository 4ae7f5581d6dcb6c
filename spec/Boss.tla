---------------------------------- MODULE Boss -----------------------------------
(* The BOSS reader: the files of the plates are read one after the other (the plate *)
(* files themselves, or the exposures they list), and every row of the fiber table   *)
(* adds one spectrum to a target.  A target is a fiber of a plate, or an object seen  *)
(* on several plates.                                                                 *)
(* unit = [plate, mjd, fibers, things]: the fibers listed in a file and the objects   *)
(* they were put on; the data of a fiber are in row Row(fiber).                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Half,        \* fibers per spectrograph
          Rf, Rd,      \* room for fibers and for dates in an identifier
          FMax, DMax, PMax,   \* largest fiber, date, plate
          ByPosition,  \* rows are taken by the place in the selected list     (wrong)
          NoModulo,    \* rows of the second spectrograph counted from fiber 1 (wrong)
          FirstPlate,  \* the plate of the first file is that of all           (wrong)
          Replace      \* a later exposure replaces an earlier one             (wrong)
VARIABLES units, frames, byobject, want, k, j, dic
vars == <<units, frames, byobject, want, k, j, dic>>
Range(s) == { s[i] : i \in 1 .. Len(s) }
\* identifiers
Encode(p, d, f) == p * (Rd * Rf) + d * Rf + f
Decode(t) == << t \div (Rd * Rf), (t \div Rf) % Rd, t % Rf >>
Identity == \A p \in 0 .. PMax, d \in 0 .. DMax, f \in 1 .. FMax : Decode(Encode(p, d, f)) = <<p, d, f>>
\* what a target is called
Name(u, i, obj) == IF obj THEN <<u.things[i]>> ELSE <<u.plate, u.mjd, u.fibers[i]>>
\* the spectra of target t: <<file, fiber>> in the order of the files
RECURSIVE OfUnit(_, _, _, _, _)
OfUnit(u, n, t, obj, i) == IF i > Len(u.fibers) THEN <<>> ELSE (IF Name(u, i, obj) = t THEN << <<n, u.fibers[i]>> >> ELSE <<>>) \o OfUnit(u, n, t, obj, i + 1)
RECURSIVE From(_, _, _, _)
From(us, t, obj, n) == IF n > Len(us) THEN <<>> ELSE OfUnit(us[n], n, t, obj, 1) \o From(us, t, obj, n + 1)
Spectra(us, t, obj) == From(us, t, obj, 1)
Names(us, obj) == UNION { { Name(us[n], i, obj) : i \in 1 .. Len(us[n].fibers) } : n \in 1 .. Len(us) }
\* plate and date written to the catalog: zero when there are several
One(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE 0
Brick(us) == << One({ us[n].plate : n \in 1 .. Len(us) }), One({ us[n].mjd : n \in 1 .. Len(us) }) >>
\* the fibers whose data are in the rows of a file: all of the plate, or of one spectrograph
Rows(u, fr) == IF fr THEN [r \in 1 .. Half |-> r + IF u.fibers[1] > Half THEN Half ELSE 0] ELSE [r \in 1 .. FMax |-> r]
Row(u, i, fr) == IF ByPosition THEN i ELSE IF fr /\ ~NoModulo THEN ((u.fibers[i] - 1) % Half) + 1 ELSE u.fibers[i]

Lists == { <<1>>, <<1, 2>>, <<2, 1>>, <<2>> }
Units == { [plate |-> p, mjd |-> 1, fibers |-> [i \in 1 .. Len(f) |-> f[i] + s * Half], things |-> g] :
             p \in 1 .. 2, s \in 0 .. 1, f \in Lists, g \in { <<7, 8>>, <<8, 9>>, <<7, 7>> } }
Init == /\ units \in [1 .. 2 -> Units] /\ frames \in BOOLEAN /\ byobject \in BOOLEAN
        /\ (~byobject => units[1].plate = units[2].plate \/ FirstPlate)
        /\ want \in { Names(units, byobject) } \union { { t } : t \in Names(units, byobject) }
        /\ k = 1 /\ j = 1 /\ dic = << >>
\* dic: sequence of [name, spectra]; spectra: <<file, fiber whose data it holds>>
Key(u, i) == IF FirstPlate /\ ~byobject THEN Name([u EXCEPT !.plate = units[1].plate], i, byobject) ELSE Name(u, i, byobject)
Add(t, s) == IF \E n \in 1 .. Len(dic) : dic[n].name = t
             THEN [n \in 1 .. Len(dic) |-> IF dic[n].name = t THEN [dic[n] EXCEPT !.spectra = IF Replace THEN <<s>> ELSE Append(@, s)] ELSE dic[n]]
             ELSE Append(dic, [name |-> t, spectra |-> <<s>>])
Read == /\ k <= Len(units) /\ j <= Len(units[k].fibers)
        /\ LET u == units[k]  t == Key(u, j)  r == Row(u, j, frames)  d == Rows(u, frames)
           IN dic' = IF t \in want THEN Add(t, <<k, IF r \in 1 .. Len(d) THEN d[r] ELSE 0>>) ELSE dic
        /\ j' = j + 1 /\ UNCHANGED <<units, frames, byobject, want, k>>
Turn == /\ k <= Len(units) /\ j > Len(units[k].fibers) /\ k' = k + 1 /\ j' = 1 /\ UNCHANGED <<units, frames, byobject, want, dic>>
Next == Read \/ Turn
Spec == Init /\ [][Next]_vars
Done == k > Len(units)
Own == Done => /\ { dic[n].name : n \in 1 .. Len(dic) } = want
               /\ \A n \in 1 .. Len(dic) : dic[n].spectra = Spectra(units, dic[n].name, byobject)
Once == \A n, m \in 1 .. Len(dic) : n # m => dic[n].name # dic[m].name
==============================================================================
