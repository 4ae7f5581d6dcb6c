------------------------------- MODULE Cosmic ---------------------------------
(* Rejection of outliers when spectra of one grid are coadded                 *)
(* (redrock.targets.Target.compute_coadd with cosmics_nsig).  The gradient of *)
(* each spectrum is compared with a mean gradient; if the spectra disagree by *)
(* more than nsig, the one that disagrees most loses this pixel.  The first   *)
(* pixel has no gradient.                                                     *)
(*                                                                            *)
(* Weights iv are constant within a spectrum here (variance of a gradient:    *)
(* 2/iv); all comparisons are between integers.                               *)
(*                                                                            *)
(* The mean gradient: own is that of the pixel; Pooled divides by the weight  *)
(* of all pixels, as the code does, so that gradients are compared with       *)
(* nearly zero (a steep line that all spectra share looks like an outlier,    *)
(* and of two spectra the one with the steeper gradient is taken).  Bounds    *)
(* holds for both and for what lies between.                                  *)
(* Every: the variant that takes all spectra of such a pixel.  Sigma: the     *)
(* variant that compares squares with nsig.                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Spectra, Pixels, Flux, Weights, Nsig, Pooled, Every, Sigma
VARIABLES f, iv, pix, rej
vars == <<f, iv, pix, rej>>

RECURSIVE Add(_)
Add(s) == IF s = <<>> THEN 0 ELSE Head(s) + Add(Tail(s))
Over(n, g) == Add([i \in 1 .. n |-> g[i]])
Grad(ff, i, p) == IF p = 1 THEN 0 ELSE ff[i][p] - ff[i][p - 1]
D(ff, p) == [i \in 1 .. Len(ff) |-> Grad(ff, i, p)]
S(w) == Add(w)
T(w, d) == Add([i \in 1 .. Len(w) |-> w[i] * d[i]])
Q(w, d) == Add([i \in 1 .. Len(w) |-> w[i] * d[i] * d[i]])
Limit(w, nsig) == 2 * (IF Sigma THEN nsig ELSE nsig * nsig) * (Len(w) - 1)
\* do the spectra disagree?
OwnDisagree(w, d, lim) == Q(w, d) * S(w) - T(w, d) * T(w, d) > lim * S(w)
PooledDisagree(w, d, lim, np) == Q(w, d) * S(w) * np * np - 2 * T(w, d) * T(w, d) * np + T(w, d) * T(w, d) > lim * S(w) * np * np
\* distance from the mean (times the weights)
Far(w, d, i, np) == LET x == d[i] * S(w) * np - T(w, d) IN w[i] * x * x
Worst(w, d, np) == { i \in 1 .. Len(w) : \A j \in 1 .. Len(w) : Far(w, d, j, np) <= Far(w, d, i, np) }
\* what a pixel with gradients d can lose, whatever mean is used: a set of sets of spectra
Can(w, d, nsig) ==
    LET lim == 2 * nsig * nsig * (Len(w) - 1) one == { {i} : i \in 1 .. Len(w) } IN
    IF Len(w) = 1 \/ Q(w, d) <= lim THEN { {} } ELSE IF OwnDisagree(w, d, lim) THEN one ELSE one \union { {} }
Loses(ff, w, p, nsig) == Can(w, D(ff, p), nsig)

Init == /\ \E n \in Spectra : /\ f \in [1 .. n -> [1 .. Pixels -> Flux]]
                              /\ iv \in [1 .. n -> Weights]
        /\ pix = 1 /\ rej = <<>>
Pixel == /\ pix <= Pixels
         /\ LET d == D(f, pix)
                lim == Limit(iv, Nsig)
                bad == IF Pooled THEN PooledDisagree(iv, d, lim, Pixels) ELSE OwnDisagree(iv, d, lim) IN
            \E X \in (IF Len(iv) = 1 \/ ~bad THEN { {} } ELSE IF Every THEN { 1 .. Len(iv) } ELSE { {i} : i \in Worst(iv, d, IF Pooled THEN Pixels ELSE 1) }) : rej' = Append(rej, X)
         /\ pix' = pix + 1
         /\ UNCHANGED <<f, iv>>
Spec == Init /\ [][Pixel]_vars

Bounds == \A p \in DOMAIN rej : rej[p] \in Loses(f, iv, p, Nsig) \/ Every
AgreeKept == \A p \in DOMAIN rej : (\A i, j \in DOMAIN iv : Grad(f, i, p) = Grad(f, j, p)) => rej[p] = {}
SomeLeft == \A p \in DOMAIN rej : Cardinality(rej[p]) < Len(iv)
FirstKept == rej # <<>> => rej[1] = {}
\* an offset between the spectra is no reason to reject
OffsetsIgnored == \A p \in DOMAIN rej : (\A i \in DOMAIN iv : \A k \in 1 .. Pixels : f[i][k] - f[1][k] = f[i][1] - f[1][1]) => rej[p] = {}
===============================================================================
