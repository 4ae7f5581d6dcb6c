------------------------------ MODULE Device ---------------------------------
(* Copies of a target's data on the device (redrock.targets.Target).          *)
(* The spectra may still be changed by the program before they are used for   *)
(* the first time on the device (masking of sky lines); from then on the copy *)
(* is used.  Legendre polynomials are computed for a number of terms, kept    *)
(* until another number is asked for, and copied to the device when asked for *)
(* there.  Whatever was asked before, the answer is what was asked for.       *)
(*                                                                            *)
(* Stale: the variant that keeps the copy on the device when the number of    *)
(* terms changes.  Early: the variant that copies the spectra when the target *)
(* is made.                                                                   *)
EXTENDS Integers, Sequences
CONSTANTS Degrees, Changes, Stale, Early
VARIABLES data, gdata, deg, gdeg, ans, hist
vars == <<data, gdata, deg, gdeg, ans, hist>>

Nothing == -1
Sides == {"host", "device"}
Init == /\ data = 0 /\ gdata = (IF Early THEN 0 ELSE Nothing) /\ deg = Nothing /\ gdeg = Nothing
        /\ ans = [asked |-> Nothing, got |-> Nothing, side |-> "host", at |-> "host"] /\ hist = <<>>

Mask == /\ data < Changes /\ (gdata = Nothing \/ Early)
        /\ data' = data + 1
        /\ UNCHANGED <<gdata, deg, gdeg, ans, hist>>
Spectra == /\ gdata' = (IF gdata = Nothing THEN data ELSE gdata)
           /\ ans' = [asked |-> data, got |-> gdata', side |-> "device", at |-> "device"]
           /\ UNCHANGED <<data, deg, gdeg, hist>>

\* the state after asking for n terms on a side
Poly(n, side, d, g) ==
    LET same == d = n IN
    IF side = "device"
      THEN [deg |-> n, gdeg |-> IF (same \/ Stale) /\ g # Nothing /\ same THEN g ELSE n]
      ELSE [deg |-> n, gdeg |-> IF same \/ Stale THEN g ELSE Nothing]
Legendre(n, side) ==
    LET r == Poly(n, side, deg, gdeg) IN
    /\ deg' = r.deg /\ gdeg' = r.gdeg
    /\ ans' = [asked |-> n, got |-> (IF side = "device" THEN r.gdeg ELSE r.deg), side |-> side, at |-> side]
    /\ hist' = Append(hist, [n |-> n, side |-> side])
    /\ UNCHANGED <<data, gdata>>
Next == Mask \/ Spectra \/ \E n \in Degrees, s \in Sides : Legendre(n, s)
Spec == Init /\ [][Next]_vars
Answered == ans.got = ans.asked /\ ans.side = ans.at
Bound == Len(hist) <= 4
==============================================================================
