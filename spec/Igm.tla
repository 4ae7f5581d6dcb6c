---------------------------------- MODULE Igm -----------------------------------
(* Absorption by the intergalactic medium.                                        *)
(* Wavelengths W are observed, in 1/100 Angstrom; redshifts are given as F, the    *)
(* value of 1+z in eighths; lines are in 1/10000 Angstrom.  Optical depths are      *)
(* opaque integers; which of them apply is decided here.                            *)
EXTENDS Integers, Sequences, FiniteSets

\* is the light emitted blueward of the line and observed at W able to be absorbed by it?
Blueward(W, F, line) == W * 800 < line * F
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* Calura12, Kamble20: a sum over the lines
Series(W, F, lines, t) == SumTo([k \in 1 .. Len(lines) |-> IF Blueward(W, F, lines[k]) THEN t[k] ELSE 0], Len(lines))

\* Inoue14: line absorption by the forest (three regimes) and by dense systems (two), continuum absorption below the limit
Below(W, line, tenths) == W * 1000 < line * tenths          \* W < line * tenths/10
Forest(W, F, lines, a) == SumTo([k \in 1 .. Len(lines) |-> IF ~Blueward(W, F, lines[k]) THEN 0
                                   ELSE IF Below(W, lines[k], 22) THEN a[1][k] ELSE IF Below(W, lines[k], 57) THEN a[2][k] ELSE a[3][k]], Len(lines))
Dense(W, F, lines, d) == SumTo([k \in 1 .. Len(lines) |-> IF ~Blueward(W, F, lines[k]) THEN 0
                                   ELSE IF Below(W, lines[k], 30) THEN d[1][k] ELSE d[2][k]], Len(lines))
Limit == 9118000
\* c: the nine possible continuum terms at this redshift and wavelength
Continuum(W, F, c) == IF ~Blueward(W, F, Limit) THEN 0 ELSE
    (IF 10 * F < 8 * 22 THEN c[1]
     ELSE IF 10 * F < 8 * 57 THEN (IF Below(W, Limit, 22) THEN c[3] ELSE c[2])
     ELSE IF Below(W, Limit, 22) THEN c[6] ELSE IF Below(W, Limit, 57) THEN c[5] ELSE c[4])
    + (IF F < 8 * 3 THEN c[7] ELSE IF Below(W, Limit, 30) THEN c[9] ELSE c[8])
Any(W, F, lines) == \E k \in 1 .. Len(lines) : Blueward(W, F, lines[k])

\* --- absorption while redshift grows, for a list of redshifts at once -----------------
CONSTANTS Waves, Factors, Lines, ByFirst, Closed
VARIABLES todo, rows, zs
Tau(W, k) == k + W \div 100000                             \* any function of line and wavelength
Touch(W, F, line) == IF Closed THEN W * 800 <= line * F ELSE Blueward(W, F, line)
Seq2(S) == UNION { [1 .. n -> S] : n \in 1 .. 2 }
Init == zs \in Seq2(Factors) /\ todo = zs /\ rows = <<>>
Row(F) == [W \in Waves |-> SumTo([k \in 1 .. Len(Lines) |-> IF Touch(W, F, Lines[k]) THEN Tau(W, k) ELSE 0], Len(Lines))]
Step == /\ todo # <<>>
        /\ rows' = Append(rows, IF ByFirst /\ rows # <<>> /\ \A W \in Waves : rows[1][W] = 0 THEN rows[1] ELSE Row(Head(todo)))
        /\ todo' = Tail(todo) /\ UNCHANGED zs
Spec == Init /\ [][Step]_<<todo, rows, zs>>
OnlyDims == \A i \in 1 .. Len(rows) : \A W \in Waves : rows[i][W] >= 0
Redward == \A i \in 1 .. Len(rows) : \A W \in Waves : (~Any(W, zs[i], Lines)) <=> rows[i][W] = 0
Alone == \A i \in 1 .. Len(rows) : \A W \in Waves : rows[i][W] = Series(W, zs[i], Lines, [k \in 1 .. Len(Lines) |-> Tau(W, k)])
MoreWithRedshift == \A i, j \in 1 .. Len(rows) : zs[i] <= zs[j] => \A W \in Waves : rows[i][W] <= rows[j][W]
==============================================================================
