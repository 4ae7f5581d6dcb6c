-------------------------------- MODULE LeastSq ---------------------------------
(* Weighted least squares at one redshift, with integers.                         *)
(* d: data, one record per spectrum: [R, T, w, f] - resolution rows, template       *)
(* values per pixel and basis, weights, fluxes.  P: prior matrix (zeros for none).   *)
(* Coefficients are rational: cn / N with N > 0.                                    *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
NB(d) == Len(d[1].T[1])
\* the model of spectrum s, pixel i, basis b: template seen through the resolution
Seen(s, i, b) == SumTo([j \in 1 .. Len(s.T) |-> s.R[i][j] * s.T[j][b]], Len(s.T))
Mat0(d) == LET A == [k \in 1 .. Len(d) |-> [i \in 1 .. Len(d[k].w) |-> [b \in 1 .. NB(d) |-> Seen(d[k], i, b)]]] IN
    [a \in 1 .. NB(d) |-> [b \in 1 .. NB(d) |-> SumTo([k \in 1 .. Len(d) |-> SumTo([i \in 1 .. Len(d[k].w) |-> d[k].w[i] * A[k][i][a] * A[k][i][b]], Len(d[k].w))], Len(d))]]
Mat(d, P) == LET m == Mat0(d) IN [a \in 1 .. NB(d) |-> [b \in 1 .. NB(d) |-> m[a][b] + P[a][b]]]
Rhs(d) == [a \in 1 .. NB(d) |-> SumTo([k \in 1 .. Len(d) |-> SumTo([i \in 1 .. Len(d[k].w) |-> d[k].w[i] * Seen(d[k], i, a) * d[k].f[i]], Len(d[k].w))], Len(d))]
\* N times half the gradient of the penalised chi-squared at cn / N
Grad(M, y, cn, N) == [a \in 1 .. Len(y) |-> SumTo([b \in 1 .. Len(y) |-> M[a][b] * cn[b]], Len(y)) - N * y[a]]
\* the same for the sum of squares of the normal equations
Grad2(M, y, cn, N) == LET g == Grad(M, y, cn, N) IN [a \in 1 .. Len(y) |-> SumTo([b \in 1 .. Len(y) |-> M[b][a] * g[b]], Len(y))]
\* first order conditions, B: the coefficients that must not be negative (sufficient: the function is convex)
Stationary(g, cn, B) == \A a \in 1 .. Len(cn) : IF a \in B /\ cn[a] = 0 THEN g[a] >= 0 ELSE g[a] = 0
Feasible(cn, B) == \A a \in B : cn[a] >= 0
Chi2N2(d, cn, N) == SumTo([k \in 1 .. Len(d) |-> SumTo([i \in 1 .. Len(d[k].w) |->
       LET r == N * d[k].f[i] - SumTo([b \in 1 .. NB(d) |-> Seen(d[k], i, b) * cn[b]], NB(d)) IN d[k].w[i] * r * r], Len(d[k].w))], Len(d))
\* at an optimum without prior: N chi2 = N sum(w f^2) - cn . y
Chi2N(d, y, cn, N) == N * SumTo([k \in 1 .. Len(d) |-> SumTo([i \in 1 .. Len(d[k].w) |-> d[k].w[i] * d[k].f[i] * d[k].f[i]], Len(d[k].w))], Len(d))
                      - SumTo([b \in 1 .. Len(y) |-> cn[b] * y[b]], Len(y))
NoWeight(d) == \A k \in 1 .. Len(d) : \A i \in 1 .. Len(d[k].w) : d[k].w[i] = 0
Minor(M, j) == [a \in 1 .. Len(M) - 1 |-> [b \in 1 .. Len(M) - 1 |-> M[a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE IF Len(M) = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
          ELSE SumTo([j \in 1 .. Len(M) |-> IF M[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, j))], Len(M))

\* --- finding the non-negative optimum of two basis vectors by pivoting -------------------
CONSTANTS TV, FV, WV, NonNeg,
          Normal, Clip, Unweighted          \* wrong variants: pivot on the normal equations, clip the free optimum, forget the weights in the right hand side
VARIABLES d, S, steps, st
vars == <<d, S, steps, st>>
NP == 2
One == [i \in 1 .. NP |-> [j \in 1 .. NP |-> IF i = j THEN 1 ELSE 0]]
P0 == <<<<0, 0>>, <<0, 0>>>>
Square(M) == [a \in 1 .. 2 |-> [b \in 1 .. 2 |-> M[1][a] * M[1][b] + M[2][a] * M[2][b]]]
RhsV(dd) == IF Unweighted THEN Rhs(<<[dd[1] EXCEPT !.w = [i \in 1 .. NP |-> 1]]>>) ELSE Rhs(dd)
MM == IF Normal THEN Square(Mat(d, P0)) ELSE Mat(d, P0)
YY == LET M == Mat(d, P0) y == RhsV(d) IN IF Normal THEN [a \in 1 .. 2 |-> M[1][a] * y[1] + M[2][a] * y[2]] ELSE y
\* solution on the support S0, as <<cn, N>>
Sol(S0) == IF S0 = {} THEN <<<<0, 0>>, 1>>
           ELSE IF S0 = {1} THEN <<<<YY[1], 0>>, MM[1][1]>>
           ELSE IF S0 = {2} THEN <<<<0, YY[2]>>, MM[2][2]>>
           ELSE <<<<YY[1] * MM[2][2] - MM[1][2] * YY[2], MM[1][1] * YY[2] - MM[2][1] * YY[1]>>, Det(MM)>>
Start0 == IF NonNeg /\ ~Clip THEN {} ELSE {1, 2}
Init == /\ d \in { <<[R |-> One, T |-> t, w |-> w, f |-> f]>> : t \in [1 .. NP -> [1 .. 2 -> TV]], w \in [1 .. NP -> WV], f \in [1 .. NP -> { v - 1 : v \in FV }] }
        /\ Det(Mat(d, P0)) > 0 /\ S = Start0 /\ steps = 0 /\ st = "run"
Wrong == LET c == Sol(S)[1] N == Sol(S)[2] g == Grad(MM, YY, c, N) IN { a \in 1 .. 2 : (a \in S /\ c[a] < 0) \/ (a \notin S /\ g[a] < 0) }
Least(A) == CHOOSE a \in A : \A b \in A : a <= b
Flip == /\ st = "run"
        /\ IF ~NonNeg \/ Clip \/ Wrong = {} THEN st' = "done" /\ UNCHANGED <<S, steps>>
           ELSE LET a == Least(Wrong) IN S' = (IF a \in S THEN S \ {a} ELSE S \union {a}) /\ steps' = steps + 1 /\ UNCHANGED st
        /\ UNCHANGED d
Spec == Init /\ [][Flip]_vars
Answer == LET s == Sol(S) IN IF Clip THEN <<[a \in 1 .. 2 |-> IF s[1][a] < 0 THEN 0 ELSE s[1][a]], s[2]>> ELSE s
Bounded == IF NonNeg THEN {1, 2} ELSE {}
Terminates == steps <= 4
Lattice == { c \in (-2 .. 3) \X (-2 .. 3) : NonNeg => c[1] >= 0 /\ c[2] >= 0 }
Optimal == st = "done" => LET c == Answer[1] N == Answer[2] IN
    /\ N > 0 /\ Feasible(c, Bounded)
    /\ Stationary(Grad(Mat(d, P0), Rhs(d), c, N), c, Bounded)
    /\ \A q \in Lattice : Chi2N2(d, c, N) <= N * N * Chi2N2(d, q, 1)
    /\ N * Chi2N(d, Rhs(d), c, N) = Chi2N2(d, c, N)
\* pixels without weight: any value gives the same answer
Masked == st = "done" => \A i \in 1 .. NP : d[1].w[i] = 0 => Rhs(d) = Rhs(<<[d[1] EXCEPT !.f[i] = 7]>>)
==============================================================================
