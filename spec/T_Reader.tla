------------------------------- MODULE T_Reader -------------------------------
(* "read": what the reader gives on every rank; "npix": the pixel counts in   *)
(* the catalog of a complete run; both judged by Reader.                      *)
EXTENDS TraceBase
VARIABLE l
NT == 0
NR == 0
fs == <<>>
sl == <<>>
done == TRUE
R == INSTANCE Reader

\* the fiber table: TILEID only if every file is of one tile; if it is there, it is that of the file
TilesOf(fl, t) == { fl.tiles[i] : i \in { i \in 1 .. Len(fl.ids) : fl.ids[i] = t } }
OneTile(e) == \A f \in 1 .. Len(e.files) : e.files[f].coadded = FALSE /\ Cardinality(Rng(e.files[f].tiles)) = 1
Rows(e) == R!FiberRows(e.files, e.sel, e.first, e.n)
TilesOk(e, tl) ==
    LET F == Rows(e) IN
    IF tl = <<>> THEN F = <<>> \/ ~OneTile(e)
    ELSE Len(tl) = Len(F) /\ \A i \in 1 .. Len(F) : TilesOf(e.files[F[i][1]], F[i][2]) = { tl[i] }
NumTileOk(e, nt) ==
    LET F == Rows(e) IN
    nt = <<>> \/ (Len(nt) = Len(F) /\ \A i \in 1 .. Len(F) : nt[i] = Cardinality(TilesOf(e.files[F[i][1]], F[i][2])))
JudgeRead(e) ==
    LET T == R!Targets(e.files, e.sel, e.first, e.n)
        ref == R!Refused(e.files, e.sel, e.first, e.n)
        go == e.ok /\ ~ref
        cls(s) == e.files[s[1]].cls[s[3]][s[2]]
        flat == R!Cat(e.local) IN
    << <<"a selection beyond the file is refused, any other is read", e.ok = ~ref>>,
       <<"the targets are the selected ones in order", go => \A r \in 1 .. Len(e.all) : e.all[r] = T>>,
       <<"every target is on exactly one rank", go => (Rng(flat) = Rng(T) /\ Len(flat) = Len(T))>>,
       <<"identifiers and data of a rank go together", go => e.local = e.dataids>>,
       <<"each target has all its spectra in order", (go /\ e.coadd = FALSE) => \A i \in 1 .. Len(e.data) : e.data[i].specs = R!Spectra(e.files, e.sel, e.first, e.n, e.data[i].tid)>>,
       <<"wavelength, band and resolution belong to the spectrum", (go /\ e.coadd = FALSE) => \A i \in 1 .. Len(e.data) : \A j \in 1 .. Len(e.data[i].same) : e.data[i].same[j]>>,
       <<"the weight is zero exactly on bad pixels", (go /\ e.coadd = FALSE) => \A i \in 1 .. Len(e.data) : \A j \in 1 .. Len(e.data[i].specs) :
             e.data[i].specs[j][1] = 0 \/ e.data[i].ivar[j] = [p \in 1 .. Len(cls(e.data[i].specs[j])) |-> R!WeightOf(cls(e.data[i].specs[j])[p], e.nsig)]>>,
       <<"other values are unchanged", (go /\ e.coadd = FALSE) => \A i \in 1 .. Len(e.data) : \A j \in 1 .. Len(e.data[i].specs) :
             e.data[i].specs[j][1] = 0 \/ e.data[i].flux[j] = [p \in 1 .. Len(cls(e.data[i].specs[j])) |-> R!FluxOf(cls(e.data[i].specs[j])[p])]>>,
       <<"the coadd is that of the spectra of the target with the options given", (go /\ e.coadd) => \A i \in 1 .. Len(e.summed) : e.summed[i]>>,
       <<"the fiber table has the rows of the selected targets", go => \A r \in 1 .. Len(e.fiber) : e.fiber[r] = R!FiberRows(e.files, e.sel, e.first, e.n)>>,
       <<"the score table has the rows of the selected targets", go => \A r \in 1 .. Len(e.tsnr) : e.tsnr[r] = R!FiberRows(e.files, e.sel, e.first, e.n)>>,
       <<"the exposure table has the rows of the selected targets", go => \A r \in 1 .. Len(e.exps) : e.exps[r] = R!ExpRows(e.files, e.sel, e.first, e.n)>>,
       <<"the tile of a row is that of all its spectra", go => \A r \in 1 .. Len(e.tiles) : TilesOk(e, e.tiles[r])>>,
       <<"the tiles of a target are counted", go => \A r \in 1 .. Len(e.numtile) : NumTileOk(e, e.numtile[r])>> >>

\* pixels of a target in the catalog.  Each spectrum on its own: exactly the good ones.  Coadded: a pixel is
\* dropped as well when its resolution has lost weight to bad neighbours (e.reach pixels away), so the count
\* is between that of the pixels without bad neighbours in any spectrum and that of the good pixels.
Cls(e, s) == e.files[s[1]].cls[s[3]][s[2]]
Ok(e, s, p) == R!WeightOf(Cls(e, s)[p], e.nsig) = "same"
Seen(e, s, p) == e.skymask => ~R!Sky(e.wave[s[2]][p])
Good(e, s) == { p \in 1 .. Len(Cls(e, s)) : Ok(e, s, p) /\ Seen(e, s, p) }
Core(e, s) == { p \in 1 + e.reach .. Len(Cls(e, s)) - e.reach : Seen(e, s, p) /\ \A q \in p - e.reach .. p + e.reach : Ok(e, s, q) }
Spc(e, t) == Rng(R!Spectra(e.files, e.sel, e.first, e.n, t))
NSep(e, t) == Cardinality(UNION { { <<s, p>> : p \in Good(e, s) } : s \in Spc(e, t) })
NMost(e, t) == LET S == Spc(e, t) IN Cardinality(UNION { { <<s[2], p>> : p \in Good(e, s) } : s \in S })
NLeast(e, t) == LET S == Spc(e, t)  B == { s[2] : s \in S }
                    C(b) == { p \in 1 .. 100 : \A s \in S : s[2] = b => p \in Core(e, s) }
                IN Cardinality(UNION { { <<b, p>> : p \in C(b) } : b \in B })
NPixOk(e, t, k) == IF e.coadd THEN NLeast(e, t) <= k /\ k <= NMost(e, t) ELSE k = NSep(e, t)
JudgeNpix(e) ==
    LET T == R!Targets(e.files, e.sel, e.first, e.n) IN
    << <<"the run completes", e.ok>>,
       <<"the catalog has the selected targets in order", ~e.ok \/ e.ids = T>>,
       <<"pixel counts are those of the good pixels", ~e.ok \/ e.ids # T \/ \A i \in 1 .. Len(T) : NPixOk(e, T[i], e.npix[i])>> >>
JudgeBig(e) ==
    << <<"many rows are read", e.ok>>,
       <<"many rows: every target is on exactly one rank", ~e.ok \/ (Len(e.res) = Len(e.ids) /\ { e.res[i].tid : i \in 1 .. Len(e.res) } = Rng(e.ids))>>,
       <<"many rows: each target has all its rows unchanged in order", ~e.ok \/ \A i \in 1 .. Len(e.res) : e.res[i].got = e.res[i].rows /\ e.res[i].wrong = 0>> >>
Judge(e) == CASE e.kind = "read" -> JudgeRead(e) [] e.kind = "npix" -> JudgeNpix(e) [] e.kind = "big" -> JudgeBig(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================
