--------------------------------- MODULE Coadd ----------------------------------
(* Coadding the spectra of a target, one wavelength grid at a time.               *)
(* A spectrum: [grid, f, iv, R] with f, iv per pixel and R a sequence of           *)
(* diagonals (values per pixel).  All numbers are integers; means are kept as      *)
(* numerator and weight.                                                          *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN g[i] + SumOver(S \ {i}, g)
\* grids in order of first appearance
RECURSIVE Grids(_)
Grids(s) == IF s = <<>> THEN <<>>
            ELSE LET p == Grids(SubSeq(s, 1, Len(s) - 1)) g == s[Len(s)].grid
                 IN IF \E i \in 1 .. Len(p) : p[i] = g THEN p ELSE Append(p, g)
Of(s, g) == { i \in 1 .. Len(s) : s[i].grid = g }
\* sums at pixel p over the spectra in S
W(s, S, p) == SumOver(S, [i \in S |-> s[i].iv[p]])
F(s, S, p) == SumOver(S, [i \in S |-> s[i].iv[p] * s[i].f[p]])
Rk(s, S, k, p) == SumOver(S, [i \in S |-> s[i].iv[p] * s[i].R[k][p]])

\* --- the coadd as a step by step process ---------------------------------------
CONSTANTS MaxSpec, GridNames, Flux, Ivar,
          MixGrids, LastFirst        \* wrong variants
VARIABLES todo, acc, order, inp
vars == <<todo, acc, order, inp>>
Spectra == [grid : GridNames, f : [1 .. 1 -> Flux], iv : [1 .. 1 -> Ivar], R : {<<>>}]
Init == /\ inp \in UNION { [1 .. n -> Spectra] : n \in 1 .. MaxSpec }
        /\ todo = inp /\ order = <<>> /\ acc = [g \in GridNames |-> [w |-> 0, f |-> 0]]
Key(s) == IF MixGrids THEN CHOOSE g \in GridNames : TRUE ELSE s.grid
Add == /\ todo # <<>>
       /\ LET s == Head(todo) g == Key(s) IN
          /\ acc' = [acc EXCEPT ![g] = [w |-> @.w + s.iv[1], f |-> @.f + s.iv[1] * s.f[1]]]
          /\ order' = IF \E i \in 1 .. Len(order) : order[i] = s.grid THEN order ELSE IF LastFirst THEN <<s.grid>> \o order ELSE Append(order, s.grid)
       /\ todo' = Tail(todo) /\ UNCHANGED inp
Spec == Init /\ [][Add]_vars
Done == todo = <<>> => /\ order = Grids(inp)
                       /\ \A g \in GridNames : acc[g].w = W(inp, Of(inp, g), 1) /\ acc[g].f = F(inp, Of(inp, g), 1)
\* the mean lies between the extreme values that have weight
Between == todo = <<>> => \A g \in GridNames : LET S == { i \in Of(inp, g) : inp[i].iv[1] > 0 } IN
    S # {} => /\ \E i \in S : acc[g].f <= acc[g].w * inp[i].f[1]
              /\ \E i \in S : acc[g].f >= acc[g].w * inp[i].f[1]
==============================================================================
