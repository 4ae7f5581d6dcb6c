--------------------------------- MODULE Prior ---------------------------------
(* Redshift priors.  Redshifts and widths are integers (units of 1/1000).        *)
(* Values: the penalty times width^2 for the Gaussian, width^2 * exp(penalty/2)  *)
(* for the Lorentzian (both integers), and 0 / INF / NAN for the top-hat.        *)
EXTENDS Integers, Sequences, FiniteSets
INF == 0 - 2
NAN == 0 - 1
Sq(x) == x * x
Abs1(x) == IF x < 0 THEN 0 - x ELSE x
Gauss(z, z0, w) == Sq(z - z0)                   \* w^2 ((z-z0)/w)^2
Lor(z, z0, w) == Sq(w) + Sq(z - z0)             \* w^2 exp(ln(1 + ((z-z0)/w)^2))
\* half open: strictly closer than half the width
Inside(zs, z0, w) == { i \in 1 .. Len(zs) : 2 * Abs1(zs[i] - z0) < w }
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
\* outside nan; a wall on each side, on the last point inside where the grid ends
Hat(zs, z0, w) ==
    LET I == Inside(zs, z0, w) n == Len(zs) IN
    IF I = {} THEN [i \in 1 .. n |-> NAN]
    ELSE LET a == MinS(I) b == MaxS(I)
             wl == IF a = 1 THEN 1 ELSE a - 1
             wr == IF b = n THEN n ELSE b + 1
         IN [i \in 1 .. n |-> IF i \in {wl, wr} THEN INF ELSE IF i \in I THEN 0 ELSE NAN]

\* --- properties of the functions, for all small grids ---------------------------
Grids == { g \in UNION { [1 .. n -> 0 .. 6] : n \in 1 .. 4 } : \A i \in 1 .. Len(g) - 1 : g[i] < g[i + 1] }
HatOK == \A g \in Grids : \A z0 \in 0 .. 6 : \A w \in 1 .. 8 :
            LET h == Hat(g, z0, w) IN
            /\ \A i \in 1 .. Len(g) : h[i] = 0 => i \in Inside(g, z0, w)          \* no free point outside the window
            /\ \A i \in 1 .. Len(g) - 1 : ~ (h[i] = 0 /\ h[i + 1] = NAN) /\ ~ (h[i] = NAN /\ h[i + 1] = 0)      \* the walls separate
            /\ (Len(g) > 0 => h[1] # 0 /\ h[Len(g)] # 0)
            /\ \A i \in 2 .. Len(g) - 1 : i \in Inside(g, z0, w) => h[i] = 0          \* the window is not narrowed
GaussOK == \A a, b \in 0 .. 6 : Gauss(a, b, 1) >= 0 /\ (Gauss(a, b, 1) = 0 <=> a = b) /\ Gauss(a, b, 1) = Gauss(b, a, 1)

\* --- the application: every process adds the prior to the scans of its own targets
CONSTANTS Targets, Kinds, NProc,
          Everywhere,      \* wrong: every process adds to every target
          Shared           \* wrong: targets share the scan of a template
VARIABLES owner, done, scan
vars == <<owner, done, scan>>
Named == { t \in Targets : t % 2 = 1 }
Init == owner \in [Targets -> 1 .. NProc] /\ done = {} /\ scan = [t \in Targets |-> [k \in Kinds |-> 0]]
Bump(t, k) == [x \in Targets |-> [y \in Kinds |-> IF y = k /\ (x = t \/ Shared) THEN scan[x][y] + 1 ELSE scan[x][y]]]
Apply(p, t, k) == /\ (owner[t] = p \/ Everywhere) /\ <<p, t, k>> \notin done /\ done' = done \union {<<p, t, k>>}
                  /\ scan' = IF t \in Named THEN Bump(t, k) ELSE scan
                  /\ UNCHANGED owner
Next == \E p \in 1 .. NProc, t \in Targets, k \in Kinds : Apply(p, t, k)
Spec == Init /\ [][Next]_vars
Finished == \A t \in Targets, k \in Kinds : <<owner[t], t, k>> \in done
Once == \A t \in Targets, k \in Kinds : scan[t][k] <= (IF t \in Named THEN 1 ELSE 0)
All == Finished => \A t \in Named, k \in Kinds : scan[t][k] = 1
Funcs == HatOK /\ GaussOK
==============================================================================
