------------------------------- MODULE Rank ----------------------------------
(* Ranking of the candidates of one target (redrock.zfind): warnings, order,  *)
(* trimming per spectral type, rank numbers, chi-squared gaps.                *)
(*                                                                            *)
(* A candidate is a record                                                    *)
(*   id, type, chi (chi2 in a fixed unit), k (redshift in units of 1/U),      *)
(*   lim (velocity separation in units of 100 km/s), zw (warning bits of the  *)
(*   fit), npix, nco (number of coefficients)                                 *)
EXTENDS Integers, Sequences, FiniteSets

Bit(n, b) == (n \div b) % 2 = 1
SKYb == 1  LITTLE_COVERAGE == 2  SMALL_DELTA_CHI2 == 4  NEGATIVE_MODEL == 8
MANY_OUTLIERS == 16  Z_FITLIMIT == 32  NEGATIVE_EMISSION == 64  UNPLUGGED == 128
BAD_TARGET == 256  NODATA == 512  BAD_MINFIT == 1024  POORDATA == 2048
BadFitBits == {NEGATIVE_MODEL, MANY_OUTLIERS, Z_FITLIMIT, NEGATIVE_EMISSION, BAD_MINFIT}
Bad(zw) == \E b \in BadFitBits : Bit(zw, b)
With(zw, b, cond) == IF cond /\ ~Bit(zw, b) THEN zw + b ELSE zw

\* warnings known before the ranking
DataWarn(c) == With(With(c.zw, NODATA, c.npix = 0), LITTLE_COVERAGE, c.npix < 10 * c.nco)

\* (bad, chi) order
NotAfter(a, b) == \/ ~Bad(a.zw) /\ Bad(b.zw)
                  \/ Bad(a.zw) = Bad(b.zw) /\ a.chi <= b.chi

\* velocity distance of z_b from z_a (reference a) above/not below the limit; c = 299792 km/s
LIGHT == 2998
AbsI(x) == IF x < 0 THEN -x ELSE x
MinI(x, y) == IF x < y THEN x ELSE y
Far(a, b, U) == AbsI(b.k - a.k) * LIGHT > MinI(a.lim, b.lim) * (U + a.k)

\* gap of the candidate at position i of the ranked list
Later(rows, i, U) == { j \in i + 1 .. Len(rows) : Far(rows[i], rows[j], U) /\ ~Bad(rows[j].zw) }
Gap(rows, i, U) ==
    LET L == Later(rows, i, U)
    IN IF L = {} THEN 0
       ELSE (CHOOSE x \in { rows[j].chi - rows[i].chi : j \in L } : \A j \in L : x <= rows[j].chi - rows[i].chi)
SmallGap(rows, i, U, thr) ==
    \E j \in 1 .. Len(rows) : j # i /\ ~Bad(rows[j].zw) /\ Far(rows[i], rows[j], U)
                              /\ AbsI(rows[j].chi - rows[i].chi) < thr

\* --- the ranking as a step by step process, for model checking -----------------
CONSTANTS Types, Chis, NMin, MaxCand, Warns
VARIABLES cands, pool, table
vars == <<cands, pool, table>>

Init == /\ \E n \in 1 .. MaxCand :
             cands \in [1 .. n -> [type : Types, chi : Chis, zw : Warns, k : {0, 40}, lim : {10}]]
        /\ pool = DOMAIN cands
        /\ table = <<>>
KeptOf(t) == { i \in 1 .. Len(table) : cands[table[i]].type = t }
\* take a best remaining candidate; keep it if its type still has room
Take(i) == /\ i \in pool /\ \A j \in pool : NotAfter(cands[i], cands[j])
           /\ pool' = pool \ {i}
           /\ table' = IF Cardinality(KeptOf(cands[i].type)) < NMin THEN Append(table, i) ELSE table
           /\ UNCHANGED cands
Next == \E i \in DOMAIN cands : Take(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rows == [i \in 1 .. Len(table) |-> cands[table[i]]]
Ordered == \A i, j \in 1 .. Len(table) : i < j => NotAfter(Rows[i], Rows[j])
Distinct == \A i, j \in 1 .. Len(table) : i # j => table[i] # table[j]
BestKept == pool = {} =>
    \A t \in Types :
        /\ Cardinality(KeptOf(t)) = MinI(NMin, Cardinality({ i \in DOMAIN cands : cands[i].type = t }))
        /\ \A i \in DOMAIN cands : (cands[i].type = t /\ \A m \in 1 .. Len(table) : table[m] # i)
              => \A m \in KeptOf(t) : NotAfter(cands[table[m]], cands[i])
\* the reported redshift is the best of everything that was fitted
FirstIsBest == pool = {} => \A i \in DOMAIN cands : NotAfter(Rows[1], cands[i])
GapSound == pool = {} => \A i \in 1 .. Len(table) :
    /\ (~Bad(Rows[i].zw) => Gap(Rows, i, 10000) >= 0)
    /\ (~Bad(Rows[i].zw) /\ Later(Rows, i, 10000) # {} /\ Gap(Rows, i, 10000) < 9) => SmallGap(Rows, i, 10000, 9)
AllRanked == <>(pool = {})
================================================================================
