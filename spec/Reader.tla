-------------------------------- MODULE Reader --------------------------------
(* Which spectra, in which order and with which weights, the DESI reader      *)
(* gives to which target.                                                     *)
(* files[f] = [ids: target of each row, bands: names, coadded]                *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen) ELSE <<Head(s)>> \o Uniq(Tail(s), seen \union {Head(s)})
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Range(s) == { s[i] : i \in 1 .. Len(s) }
RECURSIVE Filter(_, _)
Filter(s, S) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in S THEN <<Head(s)>> ELSE <<>>) \o Filter(Tail(s), S)

\* the selection in file f: sel = <<>> means all
Base(f, sel) == IF sel = <<>> THEN Uniq(f.ids, {}) ELSE sel
Refused(files, sel, first, n) == \E k \in 1 .. Len(files) : LET b == Base(files[k], sel) IN first > Len(b) \/ (n >= 0 /\ first + n > Len(b))
Keep(f, sel, first, n) == LET b == Base(f, sel) IN SubSeq(b, first + 1, IF n < 0 THEN Len(b) ELSE first + n)
Targets(files, sel, first, n) == Uniq(Cat([k \in 1 .. Len(files) |-> Keep(files[k], sel, first, n)]), {})

\* rows of t in a file, in file order
RowsOf(f, t) == LET RECURSIVE R(_)
                    R(i) == IF i > Len(f.ids) THEN <<>> ELSE (IF f.ids[i] = t THEN <<i>> ELSE <<>>) \o R(i + 1)
                IN R(1)
\* spectra of t: <<file, band, row>>, file by file, band by band, row by row
Spectra(files, sel, first, n, t) ==
    Cat([k \in 1 .. Len(files) |->
        IF t \notin Range(Keep(files[k], sel, first, n)) THEN <<>>
        ELSE Cat([b \in 1 .. Len(files[k].bands) |-> [i \in 1 .. Len(RowsOf(files[k], t)) |-> <<k, files[k].bands[b], RowsOf(files[k], t)[i]>>]])])

\* fibermap rows: <<file, target>>, by target in the order of the targets, then by file
FiberRows(files, sel, first, n) ==
    LET T == Targets(files, sel, first, n) IN
    Cat([i \in 1 .. Len(T) |-> Cat([k \in 1 .. Len(files) |->
        IF T[i] \in Range(Keep(files[k], sel, first, n)) /\ T[i] \in Range(files[k].ids) THEN << <<k, T[i]>> >> ELSE <<>>])])
\* exposure table: <<file, target, row in the file>>; exps: target of each exposure of the file
ExpRows(files, sel, first, n) ==
    Cat([k \in 1 .. Len(files) |-> LET f == files[k]  K == Range(Keep(f, sel, first, n)) IN
        Cat([j \in 1 .. Len(f.exps) |-> IF f.exps[j] \in K THEN << <<k, f.exps[j], j>> >> ELSE <<>>])])

\* pixels: classes of input -> weight and flux of the output
Zeroed == {"nanflux", "infflux", "neginfflux", "naniv", "infiv", "masked", "noweight"}
\* negN: flux N sigma below zero
Sigma(c) == CASE c = "neg3" -> 3 [] c = "neg7" -> 7 [] c = "neg20" -> 20 [] OTHER -> 0
WeightOf(c, nsig) == IF c \in Zeroed \/ Sigma(c) > nsig THEN "zero" ELSE "same"
FluxOf(c) == IF c \in {"nanflux", "infflux", "neginfflux"} THEN "zero" ELSE "same"
Sky(w) == (w >= 5572 /\ w <= 5582) \/ (w >= 9792 /\ w <= 9795)

(* model: for all small files and selections, the rules give every selected   *)
(* target once and every row of a selected target exactly once                *)
CONSTANTS NT, NR
VARIABLES fs, sl, done
Init == /\ fs \in [1 .. 2 -> { [ids |-> s, bands |-> b] : s \in [1 .. NR -> 1 .. NT], b \in {<<"b">>, <<"b", "r">>} }]
        /\ sl \in { <<>>, <<2, 1>>, <<1>> } /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<fs, sl>>
Spec == Init /\ [][Next]_<<fs, sl, done>>
Once == LET T == Targets(fs, sl, 0, -1) IN \A i, j \in 1 .. Len(T) : i # j => T[i] # T[j]
AllRows == LET T == Targets(fs, sl, 0, -1) IN
    \A k \in 1 .. 2 : \A r \in 1 .. NR : \A b \in 1 .. Len(fs[k].bands) :
        LET t == fs[k].ids[r]  hit == { i \in 1 .. Len(T) : <<k, fs[k].bands[b], r>> \in Range(Spectra(fs, sl, 0, -1, T[i])) } IN
        hit = { i \in 1 .. Len(T) : T[i] = t }
Matched == LET T == Targets(fs, sl, 0, -1)  F == FiberRows(fs, sl, 0, -1) IN Uniq([i \in 1 .. Len(F) |-> F[i][2]], {}) = Filter(T, Range(fs[1].ids) \union Range(fs[2].ids))
===============================================================================
