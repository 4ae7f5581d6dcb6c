--------------------------------- MODULE Store --------------------------------
(* The details file: for every scanned template type a matrix with one row per *)
(* target, and for every target the table of its ranked fits.  Writing is      *)
(* followed by any number of reads of any selection.                           *)
(*  x = [ids, scan: [target -> [type -> value]], fits: [target -> sequence of  *)
(*       [type, val]]] ; a fit's type need not be one of the scanned types      *)
EXTENDS Integers, Sequences, FiniteSets

Rg(s) == { s[i] : i \in 1 .. Len(s) }
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* what the file holds
File(x, types) == [ids |-> x.ids, rows |-> [ty \in types |-> [i \in 1 .. Len(x.ids) |-> x.scan[x.ids[i]][ty]]], fit |-> [t \in Rg(x.ids) |-> x.fits[t]]]
\* reading: which = <<>> means all.  The rows of a matrix are found by the position of the target in the file.
Want(x, which) == IF which = <<>> THEN x.ids ELSE which
PosIn(s, t) == CHOOSE i \in 1 .. Len(s) : s[i] = t
Read(f, which, types) ==
    LET ids == IF which = <<>> THEN f.ids ELSE which IN
    [scan |-> [t \in Rg(ids) |-> [ty \in types |-> f.rows[ty][PosIn(f.ids, t)]]],
     table |-> Cat([i \in 1 .. Len(ids) |-> [k \in 1 .. Len(f.fit[ids[i]]) |-> <<ids[i], f.fit[ids[i]][k]>>]])]
\* a reader that takes the rows by the position in the selection
ReadBad(f, which, types) ==
    LET ids == IF which = <<>> THEN f.ids ELSE which IN
    [scan |-> [t \in Rg(ids) |-> [ty \in types |-> f.rows[ty][PosIn(ids, t)]]], table |-> Read(f, which, types).table]

\* --- model: all small results, selections
CONSTANTS Ts, Types, Extra, Vals
VARIABLES x, file, got, which, bad
vars == <<x, file, got, which, bad>>
Perms(S) == { s \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
FitSeqs == { <<>> } \union { <<[type |-> a, val |-> v]>> : a \in Types \union Extra, v \in Vals }
Init == /\ x \in [ids : Perms(Ts), scan : [Ts -> [Types -> Vals]], fits : [Ts -> FitSeqs]]
        /\ file = <<>> /\ got = <<>> /\ which = <<>> /\ bad \in {FALSE}
Write == file = <<>> /\ file' = <<File(x, Types)>> /\ UNCHANGED <<x, got, which, bad>>
DoRead == file # <<>> /\ \E w \in UNION { Perms(S) : S \in SUBSET Ts } : which' = w /\ got' = <<Read(file[1], w, Types)>> /\ UNCHANGED <<x, file, bad>>
DoReadBad == file # <<>> /\ \E w \in UNION { Perms(S) : S \in SUBSET Ts } : which' = w /\ got' = <<ReadBad(file[1], w, Types)>> /\ UNCHANGED <<x, file, bad>>
Spec == Init /\ [][Write \/ DoRead]_vars
SpecBad == Init /\ [][Write \/ DoReadBad]_vars
RoundTrip == got # <<>> =>
    LET ids == Want(x, which) IN
    /\ \A t \in Rg(ids) : got[1].scan[t] = x.scan[t]
    /\ DOMAIN got[1].scan = Rg(ids)
    /\ got[1].table = Cat([i \in 1 .. Len(ids) |-> [k \in 1 .. Len(x.fits[ids[i]]) |-> <<ids[i], x.fits[ids[i]][k]>>]])
==============================================================================
