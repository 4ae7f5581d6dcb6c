-------------------------------- MODULE Convert -------------------------------
(* Converting a file of SDSS templates (bin/rrconvertSDSStemplates): one file *)
(* of several named spectra gives one template for each name, one without     *)
(* names gives one template with all its spectra.  Names are sequences of     *)
(* characters.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Chars, MaxName, MaxFiles, KeepDash, AllRows
VARIABLES names, out
vars == <<names, out>>

RECURSIVE Without(_, _)
Without(s, S) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in S THEN <<>> ELSE <<Head(s)>>) \o Without(Tail(s), S)
RECURSIVE Swap(_, _, _)
Swap(s, a, b) == IF s = <<>> THEN <<>> ELSE <<IF Head(s) = a THEN b ELSE Head(s)>> \o Swap(Tail(s), a, b)
\* the subtype of a template: its name without hyphens and slashes
Subtype(n) == Without(n, {"-", "/"})
\* the name of the file: the subtype without blanks, ( as _ and without )
FileOf(n) == Without(Swap(Without(Subtype(n), {" "}), "(", "_"), {")"})
\* the templates of a file with names: <<file, subtype, rows>>
Templates(nms) == { <<FileOf(nms[i]), Subtype(nms[i]), <<i>> >> : i \in DOMAIN nms }

Names == UNION { [1 .. k -> Chars] : k \in 1 .. MaxName }
Init == names \in UNION { [1 .. n -> Names] : n \in 1 .. MaxFiles } /\ out = {}
Write == /\ Cardinality(out) = 0
         /\ out' = { <<FileOf(names[i]), IF KeepDash THEN names[i] ELSE Subtype(names[i]), IF AllRows THEN [j \in DOMAIN names |-> j] ELSE <<i>> >> : i \in DOMAIN names }
         /\ UNCHANGED names
Next == Write
Spec == Init /\ [][Next]_vars
Right == out = {} \/ out = Templates(names)
\* a path of one component
OnePath == \A x \in out : \A i \in DOMAIN x[1] : x[1][i] \notin {"/", " ", "(", ")"}
\* names that differ in more than these characters never share a file
NoClash == \A x, y \in out : x[1] = y[1] => Without(x[2], {" ", "(", ")", "_"}) = Without(y[2], {" ", "(", ")", "_"})
===============================================================================
