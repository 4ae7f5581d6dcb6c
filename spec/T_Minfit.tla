------------------------------- MODULE T_Minfit -------------------------------
(* "three":  minfit on three points x, y; results scaled: x0 by 1000, y0 by   *)
(*           100, xerr^2 by 1000; bad = BAD_MINFIT                             *)
(* "few":    minfit with fewer than three points                               *)
(* "row":    a row of fitz.  Positions are in units of 1/1000 of a grid step   *)
(*           from the middle of the three points; values in 1/10000 of the     *)
(*           range of the three values, from the lowest; zerr2 = 100 * xerr^2. *)
(* "grid":   the redshifts of a refinement (1e-6 of its width) and its chi2     *)
(*           (1e-6 of the largest), found and computed apart from redrock.      *)
EXTENDS TraceBase, Minfit
VARIABLE l

Near(a, b, t) == Abs(a - b) <= t
JudgeThree(e) ==
    LET a == AA(e.x, e.y)  b == BB(e.x, e.y)  c == CC(e.x, e.y)  d == DD(e.x) IN
    << <<"bad fit exactly when the parabola is not a positive minimum inside the points", e.ok /\ e.bad = (IF a = 0 THEN TRUE ELSE ~GoodFit(e.x, e.y, 0))>>,
       <<"no other warning", e.ok => e.other = 0>>,
       <<"position of the minimum", (e.ok /\ a # 0) => Near(e.x0 * 2 * a, -1000 * b, 2 * Abs(a) * 2)>>,
       <<"value at the minimum", (e.ok /\ a # 0) => Near(e.y0 * 4 * a * d, 100 * (4 * a * c - b * b), 4 * Abs(a) * d * 2)>>,
       <<"uncertainty", (e.ok /\ a # 0) => Near(e.xerr2 * Abs(a), 1000 * d, 2 * Abs(a))>> >>
JudgeFew(e) == << <<"fewer than three points is a bad fit", e.ok /\ e.bad>>, <<"no other warning", e.ok => e.other = 0>> >>

\* with x = -1, 0, 1 the formulas of Minfit become: A = y1 - 2 y2 + y3 (D = 2), B = y3 - y1, C = 2 y2
A3(y) == y[1] - 2 * y[2] + y[3]
B3(y) == y[3] - y[1]
ASSUME \A y \in [1 .. 3 -> -2 .. 2] : LET X == <<-1, 0, 1>> IN A3(y) = AA(X, y) /\ B3(y) = BB(X, y) /\ DD(X) = 2 /\ CC(X, y) = 2 * y[2]
JudgeRow(e) ==
    LET a == A3(e.y)  b == B3(e.y)
        pos == IF a = 0 THEN 1000000 ELSE (1000 * (-b)) \div (2 * a)       \* position of the parabola's minimum
        good == a > 0 /\ pos > -1000 /\ pos < 1000 /\ 8 * a * e.y[2] - b * b > 8 * a * e.zero
        out == pos < e.first \/ pos > e.last                               \* outside the refinement window
        fl == pos < e.lo \/ pos > e.hi \/ e.z < e.lo \/ e.z > e.hi
    IN
    << <<"the bad-fit warning is set exactly for bad fits", e.bad = (~good \/ out)>>,
       <<"redshift is that of the parabola, or of the lowest point when outside", Near(e.z, IF out THEN 1000 * e.low ELSE pos, IF out THEN 2 ELSE 6 + (4 * Abs(pos)) \div Abs(a))>>,
       <<"chi2 is that of the parabola, or of the lowest point when outside",
             IF out THEN Near(e.chi2, e.y[e.low + 2], 3) ELSE Near((e.y[2] - e.chi2) * 8 * a, b * b, 8 * Abs(a) * 4 + 8 * Abs(e.y[2] - e.chi2))>>,
       <<"uncertainty is that of the parabola", a # 0 => Near(e.zerr2 * Abs(a), 1000000 * 2, Abs(a) * 3 + 4 * e.zerr2)>>,
       <<"the fit-limit warning is set exactly at the limits of the scan", e.lim = fl>>,
       <<"no other warning", e.other = 0>>,
       <<"the redshift is between the neighbours of the candidate", e.z >= e.wlo - 12 /\ e.z <= e.whi + 12>>,
       <<"coefficients are those of the fit at this redshift", out \/ e.coeff = e.wantcoeff>> >>
JudgeGrid(e) ==
    << <<"the refined scan covers the neighbours of the candidate evenly", Len(e.zgot) = Len(e.zwant) /\ \A i \in DOMAIN e.zgot : Near(e.zgot[i], e.zwant[i], 2)>>,
       <<"the refined chi2 is that of the best fit, with the penalty for negative [OII]", Len(e.got) = Len(e.want) /\ \A i \in DOMAIN e.got : Near(e.got[i], e.want[i], e.tol)>> >>
Judge(e) == CASE e.kind = "grid" -> JudgeGrid(e) [] e.kind = "three" -> JudgeThree(e) [] e.kind = "few" -> JudgeFew(e) [] e.kind = "row" -> JudgeRow(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================
