-------------------------------- MODULE T_Coadd ---------------------------------
(* Recorded coadds.  inp: spectra (see Coadd.tla; R in 1/16); out: coadded spectra *)
(*  [grid, w, f, R, low]: f and R times the weight sum of the contributing         *)
(*  spectra would need division, so w (weight), fs = round(1000 * flux * w),        *)
(*  Rs = round(1000 * 16 * R * w); low[p]: the observed resolution of the pixel     *)
(*  does not add up to 0.99 (such a pixel has no weight); ws: weight before that.   *)
(*  cosmic: with rejection (nsig > 0: weights and fluxes such that Cosmic.tla says   *)
(*  which pixels can be rejected); must:                                          *)
(* <<spectrum, pixel>> that is a clear outlier       *)
EXTENDS TraceBase
VARIABLE l
MaxSpec == 0
GridNames == {}
Flux == {}
Ivar == {}
MixGrids == FALSE
LastFirst == FALSE
todo == <<>>
acc == <<>>
order == <<>>
inp == <<>>
C == INSTANCE Coadd
Spectra == {}
Pixels == 0
Weights == {}
Nsig == 0
Pooled == FALSE
Every == FALSE
Sigma == FALSE
f == <<>>
iv == <<>>
pix == 1
rej == <<>>
K == INSTANCE Cosmic
Near(a, b, w) == Abs(a - b) <= 2 + w + Abs(b) \div 100000      \* rounding of the recorded means
G(e) == C!Grids(e.inp)
Outs(e) == [i \in 1 .. Len(e.out) |-> e.out[i].grid]
\* a set of contributing spectra explains pixel p of coadd o:  the mean is theirs, the weight is theirs unless the pixel is low
Explains(e, o, S, p) ==
    LET w == C!W(e.inp, S, p) IN
    /\ o.w[p] = (IF o.low[p] THEN 0 ELSE w)
    /\ w > 0 => /\ Near(o.fn[p] * w, 1000 * C!F(e.inp, S, p), w)
                /\ \A k \in 1 .. Len(o.R) : Near(o.R[k][p] * w, 1000 * C!Rk(e.inp, S, k, p), w)
RECURSIVE Asc(_)
Asc(A) == IF A = {} THEN <<>> ELSE LET m == CHOOSE x \in A : \A y \in A : x <= y IN <<m>> \o Asc(A \ {m})
\* the sets of spectra that may contribute to a pixel
Left(e, A, p) == LET q == Asc(A)
                     x == K!Loses([i \in 1 .. Len(q) |-> e.inp[q[i]].f], [i \in 1 .. Len(q) |-> e.inp[q[i]].iv[1]], p, e.nsig)
                 IN { A \ { q[i] : i \in s } : s \in x }
Sets(e, o, p) == LET A == C!Of(e.inp, o.grid) IN IF e.nsig > 0 THEN Left(e, A, p) ELSE IF e.cosmic /\ Cardinality(A) > 1 THEN { A } \union { A \ {i} : i \in A } ELSE {A}
Judge(e) ==
    << <<"coadding succeeds", e.ok>>,
       <<"one spectrum per grid in order of first appearance", e.ok => Outs(e) = G(e)>>,
       <<"weights, flux and resolution are those of the spectra of the grid", (e.ok /\ Outs(e) = G(e)) =>
            \A i \in 1 .. Len(e.out) : \A p \in 1 .. Len(e.out[i].w) : \E S \in Sets(e, e.out[i], p) : Explains(e, e.out[i], S, p)>>,
       <<"a clear outlier is rejected", (e.ok /\ Outs(e) = G(e)) => \A m \in 1 .. Len(e.must) :
            LET s == e.must[m][1] p == e.must[m][2] i == CHOOSE j \in 1 .. Len(e.out) : e.out[j].grid = e.inp[s].grid IN
            Explains(e, e.out[i], C!Of(e.inp, e.inp[s].grid) \ {s}, p)>>,
       <<"length and wavelengths are those of the grid", e.ok => \A i \in 1 .. Len(e.out) : e.out[i].same>>,
       <<"the inputs are not changed", e.intact>>,
       <<"coadding a coadd changes nothing", e.ok => e.again>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
