------------------------------- MODULE T_Rank --------------------------------
(* Judges the table of one target against the candidates that were fitted.    *)
(* Events                                                                     *)
(*  kind "table": cands, rows, nmin, U, thr, tol, order of columns interned   *)
(*     as cand.cols / row.cols; row also has id, znum, d (gap), zw (final)    *)
(*  kind "gap": a direct call of calc_deltachi2: rows (k, lim, zw, chi), d, set*)
EXTENDS TraceBase
Types == {} Chis == {} NMin == 0 MaxCand == 0 Warns == {}
VARIABLES cands, pool, table
R == INSTANCE Rank
VARIABLE l

Near(a, b, tol) == Abs(a - b) <= tol
GapOK(rows, d, i, e) == Near(d, R!Gap(rows, i, e.U), e.tol)

JudgeGap(e) ==
    << <<"completes", e.outcome = "ok">>,
       <<"one value per candidate", Len(e.d) = Len(e.rows) /\ Len(e.set) = Len(e.rows)>>,
       <<"gap is to the best later good candidate far enough away",
           Len(e.d) = Len(e.rows) => \A i \in 1 .. Len(e.rows) : GapOK(e.rows, e.d[i], i, e)>>,
       <<"small gap warning",
           Len(e.set) = Len(e.rows) => \A i \in 1 .. Len(e.rows) : e.set[i] = R!SmallGap(e.rows, i, e.U, e.thr)>> >>

Known(e) == \A i \in 1 .. Len(e.rows) : e.rows[i].id \in 1 .. Len(e.cands)
CandOf(e, i) == e.cands[e.rows[i].id]
TypesOf(e) == { e.cands[i].type : i \in 1 .. Len(e.cands) }
JudgeTable(e) ==
    IF e.outcome # "ok" THEN << <<"completes", FALSE>> >>
    ELSE IF ~Known(e) THEN << <<"every row is one of the fitted candidates", FALSE>> >>
    ELSE
    LET n == Len(e.rows)
        row == [i \in 1 .. n |-> CandOf(e, i)]          \* what the fit returned, in table order
        kept == { e.rows[i].id : i \in 1 .. n }
    IN << <<"no candidate is reported twice", \A i, j \in 1 .. n : i # j => e.rows[i].id # e.rows[j].id>>,
          <<"a row keeps the values of one candidate", \A i \in 1 .. n : e.rows[i].cols = row[i].cols>>,
          <<"a row keeps the type of its candidate", \A i \in 1 .. n : e.rows[i].type = row[i].type /\ e.rows[i].sub = row[i].sub>>,
          <<"ranks are 0, 1, 2, ...", \A i \in 1 .. n : e.rows[i].znum = i - 1>>,
          <<"good fits first, then increasing chi2", \A i, j \in 1 .. n : i < j => R!NotAfter(row[i], row[j])>>,
          <<"requested number of candidates per type",
              \A t \in TypesOf(e) : Cardinality({ i \in 1 .. n : row[i].type = t })
                  = Min(e.nmin, Cardinality({ i \in 1 .. Len(e.cands) : e.cands[i].type = t }))>>,
          <<"the best candidates of a type are kept",
              \A c \in 1 .. Len(e.cands) : c \notin kept =>
                  \A i \in 1 .. n : row[i].type = e.cands[c].type => R!NotAfter(row[i], e.cands[c])>>,
          <<"no data and coverage warnings",
              \A i \in 1 .. n : /\ R!Bit(e.rows[i].zw, R!NODATA) = R!Bit(R!DataWarn(row[i]), R!NODATA)
                                /\ R!Bit(e.rows[i].zw, R!LITTLE_COVERAGE) = R!Bit(R!DataWarn(row[i]), R!LITTLE_COVERAGE)>>,
          <<"gap is to the best later good candidate far enough away", \A i \in 1 .. n : GapOK(row, e.rows[i].d, i, e)>>,
          <<"warnings are those of the fit, the data and the gap",
              \A i \in 1 .. n : e.rows[i].zw = R!With(R!DataWarn(row[i]), R!SMALL_DELTA_CHI2, R!SmallGap(row, i, e.U, e.thr))>> >>

Judge(e) == IF e.kind = "gap" THEN JudgeGap(e) ELSE JudgeTable(e)
Init == l = 1 /\ cands = 0 /\ pool = 0 /\ table = 0
Next == /\ l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
        /\ UNCHANGED <<cands, pool, table>>
Spec == Init /\ [][Next]_<<l, cands, pool, table>>
==============================================================================
