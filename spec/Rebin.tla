--------------------------------- MODULE Rebin ----------------------------------
(* Rebinning a piecewise linear template into bins.                               *)
(* x: increasing knots, y: values at the knots, e: increasing bin edges, all        *)
(* integers.  A bin is judged by 2 L times its integral, where L is a common         *)
(* multiple of the knot spacings, so that everything stays an integer.              *)
EXTENDS Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* 2 L times the integral over [a, b] of the line through (x[j], y[j]), (x[j+1], y[j+1])
Piece(x, y, j, a, b, L) == (b - a) * (L \div (x[j+1] - x[j])) * (y[j] * (2 * x[j+1] - a - b) + y[j+1] * (a + b - 2 * x[j]))
RECURSIVE Upto(_, _, _, _, _, _)
Upto(x, y, j, a, b, L) == IF j = 0 THEN 0 ELSE
    Upto(x, y, j - 1, a, b, L) + (LET lo == Max(a, x[j]) hi == Min(b, x[j+1]) IN IF lo < hi THEN Piece(x, y, j, lo, hi, L) ELSE 0)
Integral(x, y, a, b, L) == Upto(x, y, Len(x) - 1, a, b, L)
Inside(x, e) == e[1] >= x[1] /\ e[Len(e)] <= x[Len(x)]
\* edges of bins given by their centres (even spacings)
Edges(c) == LET n == Len(c) IN [i \in 1 .. n + 1 |-> IF i = 1 THEN c[1] - (c[2] - c[1]) \div 2 ELSE IF i = n + 1 THEN c[n] + (c[n] - c[n-1]) \div 2 ELSE (c[i-1] + c[i]) \div 2]

\* --- rebinning as a sweep over knots and edges -------------------------------------
CONSTANTS Knots, Values, EdgeSet, LL,
          KeepSegment, Extrapolate          \* wrong variants
VARIABLES x, y, e, i, j, p, acc, out, res
vars == <<x, y, e, i, j, p, acc, out, res>>
Sorted(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : \A a, b \in 1 .. Cardinality(S) : a < b => s[a] < s[b]
Init == \E K \in SUBSET Knots, E \in SUBSET EdgeSet :
        /\ Cardinality(K) \in 2 .. 4 /\ Cardinality(E) \in 2 .. 3
        /\ x = Sorted(K) /\ e = Sorted(E)
        /\ y \in [1 .. Cardinality(K) -> Values]
        /\ i = 1 /\ j = 1 /\ p = 0 /\ acc = 0 /\ out = <<>> /\ res = "start"
Start == /\ res = "start"
         /\ IF Inside(x, e) \/ Extrapolate THEN res' = "run" /\ p' = e[1] ELSE res' = "refused" /\ UNCHANGED p
         /\ UNCHANGED <<x, y, e, i, j, acc, out>>
Seek == /\ res = "run" /\ i < Len(e) /\ j < Len(x) - 1 /\ x[j+1] <= p          \* next knot
        /\ j' = j + 1 /\ UNCHANGED <<x, y, e, i, p, acc, out, res>>
Last(n) == n = Len(x) - 1
Take == /\ res = "run" /\ i < Len(e) /\ (x[j+1] > p \/ Last(j))
        /\ LET q == IF Last(j) THEN e[i+1] ELSE Min(x[j+1], e[i+1])
               seg == IF KeepSegment /\ acc # 0 THEN Max(j - 1, 1) ELSE j
               a == acc + Piece(x, y, seg, p, q, LL) IN
           IF q = e[i+1] THEN out' = Append(out, a) /\ acc' = 0 /\ i' = i + 1 /\ p' = q
                         ELSE acc' = a /\ p' = q /\ UNCHANGED <<out, i>>
        /\ UNCHANGED <<x, y, e, j, res>>
Spec == Init /\ [][Start \/ Seek \/ Take]_vars
Complete == res = "run" /\ i = Len(e)
Exact == Complete => /\ Inside(x, e)
                     /\ \A k \in 1 .. Len(e) - 1 : out[k] = Integral(x, y, e[k], e[k+1], LL)
Whole == Complete /\ Inside(x, e) => LET S[k \in 0 .. Len(out)] == IF k = 0 THEN 0 ELSE S[k-1] + out[k] IN S[Len(out)] = Integral(x, y, e[1], e[Len(e)], LL)
Between == Complete /\ Inside(x, e) => \A k \in 1 .. Len(out) :
    LET w == 2 * LL * (e[k+1] - e[k]) IN (\E a \in 1 .. Len(y) : w * y[a] <= out[k]) /\ (\E a \in 1 .. Len(y) : w * y[a] >= out[k])
Refusal == res = "refused" => ~Inside(x, e)
==============================================================================
