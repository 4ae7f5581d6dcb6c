------------------------------- MODULE T_Store --------------------------------
(* Recorded writes and reads of details files.                                *)
(*  ids: targets of the written result; types: scanned types;                  *)
(*  scan[i][k]: interned values (redshifts, chi2, penalty, coefficients) of    *)
(*  target i and type k, in single precision; fits[i]: rows <<type, interned>> *)
(*  of the target;  which: selection (<<>> all);                               *)
(*  gids, gscan, gtypes: what was read;  table: <<target, type, interned>>;    *)
(*  hasscan: false if only the table was asked for                             *)
(*  own[i][k]: the rows given with target i and type k                          *)
EXTENDS TraceBase
VARIABLE l
Ts == {}
Types == {}
Extra == {}
Vals == {}
x == <<>>
file == <<>>
got == <<>>
which == <<>>
bad == FALSE
S == INSTANCE Store

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Pos(e, t) == S!PosIn(e.ids, t)
Judge(e) ==
    LET want == IF e.which = <<>> THEN e.ids ELSE e.which
        al == e.ok /\ (e.hasscan => Rng(e.gids) = Rng(want))
        rows(t) == e.fits[Pos(e, t)]
    IN
    << <<"what was written can be read", e.ok>>,
       <<"exactly the selected targets are read", (e.ok /\ e.hasscan) => (Rng(e.gids) = Rng(want) /\ Len(e.gids) = Len(want))>>,
       <<"every scanned type is read", (e.ok /\ e.hasscan) => Rng(e.gtypes) = Rng(e.types)>>,
       <<"the scan of a target is its own", al => \A i \in 1 .. Len(e.gids) : e.gscan[i] = e.scan[Pos(e, e.gids[i])]>>,
       <<"the table has the fits of the targets in order", (al /\ e.hasfit) =>
            e.table = Flat([i \in 1 .. Len(want) |-> [k \in 1 .. Len(rows(want[i])) |-> <<want[i], rows(want[i])[k][1], rows(want[i])[k][2]>>]])>>,
       <<"fits are given with their target and type", (al /\ e.hasfit /\ e.hasscan) => \A i \in 1 .. Len(e.gids) : \A k \in 1 .. Len(e.types) :
            Rng(e.own[i][k]) = { r[2] : r \in { q \in Rng(rows(e.gids[i])) : q[1] = e.types[k] } } /\ Len(e.own[i][k]) = Cardinality({ j \in 1 .. Len(rows(e.gids[i])) : rows(e.gids[i])[j][1] = e.types[k] })>>,
       <<"column names", (e.ok /\ e.hasfit) => e.cols = e.wantcols>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
