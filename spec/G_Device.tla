------------------------------ MODULE G_Device -------------------------------
(* Prints every sequence of up to four requests for Legendre polynomials.     *)
EXTENDS Device, TLC, Json
GNext == Len(hist) < 4 /\ \E n \in Degrees, s \in Sides : Legendre(n, s) /\ (Len(hist') = 4 => PrintT(ToJson([calls |-> hist'])))
GSpec == Init /\ [][GNext]_vars
==============================================================================
