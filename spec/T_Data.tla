------------------------------- MODULE T_Data --------------------------------
(* Judges targets with missing data (Rank.tla gives the warning rules).       *)
(*  kind "pix": pixel count of a fit; positive: per spectrum, weight > 0      *)
(*  kind "iso": a run over a list of targets, some without data               *)
EXTENDS TraceBase
Types == {} Chis == {} NMin == 0 MaxCand == 0 Warns == {}
VARIABLES cands, pool, table
R == INSTANCE Rank
VARIABLE l

NPos(ss) == SumSeq([i \in 1 .. Len(ss) |-> Cardinality({ k \in 1 .. Len(ss[i]) : ss[i][k] })])

JudgePix(e) == << <<"pixel count is the number of positive weights", \A i \in 1 .. Len(e.got) : e.got[i] = NPos(e.positive)>>,
                  <<"the target is fitted", Len(e.got) >= 1>> >>

Flags(f) == LET dw == R!DataWarn([zw |-> 0, npix |-> f.npix, nco |-> f.nco])
            IN R!Bit(f.zw, R!NODATA) = R!Bit(dw, R!NODATA) /\ R!Bit(f.zw, R!LITTLE_COVERAGE) = R!Bit(dw, R!LITTLE_COVERAGE)
\* bits which are never set by the fit: reserved bits 16..23, and the ones that belong to other steps
FitMaySet(zw) == zw \div 65536 = 0 /\ ~R!Bit(zw, R!SKYb) /\ ~R!Bit(zw, R!UNPLUGGED) /\ ~R!Bit(zw, R!BAD_TARGET)
JudgeIso(e) ==
    << <<"every target appears", \A i \in 1 .. Len(e.targets) : Len(e.targets[i].rows) > 0>>,
       <<"pixel count of the target", \A i \in 1 .. Len(e.targets) : \A k \in 1 .. Len(e.targets[i].fits) : e.targets[i].fits[k].npix = e.targets[i].pixels>>,
       <<"no data and coverage warnings", \A i \in 1 .. Len(e.targets) : \A k \in 1 .. Len(e.targets[i].fits) : Flags(e.targets[i].fits[k])>>,
       <<"bits of other steps stay clear", \A i \in 1 .. Len(e.targets) : \A k \in 1 .. Len(e.targets[i].fits) : FitMaySet(e.targets[i].fits[k].zw)>>,
       <<"other targets are not changed", \A i \in 1 .. Len(e.targets) : e.targets[i].good => e.targets[i].rows = e.targets[i].ref>> >>

Judge(e) == IF e.kind = "pix" THEN JudgePix(e) ELSE JudgeIso(e)
Init == l = 1 /\ cands = 0 /\ pool = 0 /\ table = 0
Next == /\ l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
        /\ UNCHANGED <<cands, pool, table>>
Spec == Init /\ [][Next]_<<l, cands, pool, table>>
==============================================================================
