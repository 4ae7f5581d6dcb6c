-------------------------------- MODULE Install -------------------------------
(* Installing templates (bin/install_redrock_templates): look whether the     *)
(* directory exists, clone the version asked for, load what is there.  The    *)
(* directory holds "absent", "foreign" (something that was there before),     *)
(* "part" (git was interrupted; git itself removes it when it fails) or       *)
(* <<version>>.  A version is good if all templates it lists load.            *)
(* Force: the variant that removes what is there; Trust: the variant that     *)
(* does not load what it has got; AnyVersion: the one that clones the latest. *)
EXTENDS Integers, Sequences
CONSTANTS Versions, Good, Latest, Force, Trust, AnyVersion
VARIABLES dir, before, want, pc, exit, crashed
vars == <<dir, before, want, pc, exit, crashed>>

\* what a run must end with, from what was there and what is asked for: the exit code and the directory
Outcome(was, v, versions, good) ==
    IF was # "absent" THEN [ok |-> FALSE, dir |-> was]
    ELSE IF v \notin versions THEN [ok |-> FALSE, dir |-> "absent"]
    ELSE [ok |-> v \in good, dir |-> v]

Init == before \in {"absent", "foreign"} /\ dir = before /\ want \in Versions \union {"none"} /\ pc = "look" /\ exit = "run" /\ crashed = FALSE
End(c) == exit' = c /\ pc' = "end"
Look == /\ pc = "look"
        /\ IF dir # "absent" /\ ~Force THEN End("fail") /\ UNCHANGED dir ELSE pc' = "clone" /\ dir' = (IF Force THEN "absent" ELSE dir) /\ UNCHANGED exit
        /\ UNCHANGED <<before, want, crashed>>
Start == pc = "clone" /\ dir = "absent" /\ dir' = "part" /\ pc' = "cloning" /\ UNCHANGED <<before, want, exit, crashed>>
Clone == /\ pc = "cloning"
         /\ LET v == IF AnyVersion THEN Latest ELSE want IN
            IF v \in Versions THEN dir' = v /\ pc' = "load" /\ UNCHANGED exit ELSE dir' = "absent" /\ End("fail")
         /\ UNCHANGED <<before, want, crashed>>
Load == pc = "load" /\ UNCHANGED <<dir, before, want, crashed>> /\ End(IF Trust \/ dir \in Good THEN "ok" ELSE "fail")
Crash == pc # "end" /\ crashed' = TRUE /\ pc' = "end" /\ UNCHANGED <<dir, before, want, exit>>
Again == crashed /\ pc = "end" /\ before' = (IF dir = "absent" THEN "absent" ELSE dir) /\ pc' = "look" /\ exit' = "run" /\ crashed' = FALSE /\ UNCHANGED <<dir, want>>
Next == Look \/ Start \/ Clone \/ Load \/ Crash \/ Again
Spec == Init /\ [][Next]_vars

\* success means that the version asked for is there and loads
Honest == exit = "ok" => (dir = want /\ dir \in Good)
\* what was there is never touched
Kept == before # "absent" => dir = before
Result == (pc = "end" /\ ~crashed) => LET o == Outcome(before, want, Versions, Good) IN (exit = "ok") = o.ok /\ dir = o.dir
===============================================================================
