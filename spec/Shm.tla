---------------------------------- MODULE Shm ----------------------------------
(* Spectra of a target and shared memory.  Per spectrum: where the plain arrays  *)
(* and the resolution are ("in": private arrays, "shm": shared memory, "lost"),  *)
(* and the cached other form of the resolution ("none", "in", "shm", "lost").    *)
(* A child process has its own copy of this bookkeeping and sees the same shared *)
(* memory; what it does to its copy does not reach the parent.                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,             \* spectra
          NoFlag         \* wrong: packing does not look whether it was done already
VARIABLES sp, kid, seen
vars == <<sp, kid, seen>>
Fresh == [arr |-> "in", res |-> "in", csr |-> "none", packed |-> FALSE]
Pack(s) == IF s.packed /\ ~NoFlag THEN s
           ELSE [arr |-> "shm", res |-> IF s.res = "in" THEN "shm" ELSE "lost",
                 csr |-> CASE s.csr = "in" -> "shm" [] s.csr = "none" -> "none" [] OTHER -> "lost", packed |-> TRUE]
Unpack(s) == IF ~s.packed THEN s
             ELSE [arr |-> "in", res |-> IF s.res = "shm" THEN "in" ELSE "lost", csr |-> IF s.csr = "shm" THEN "in" ELSE s.csr, packed |-> FALSE]
\* asking for the resolution unpacks and caches
Use(s) == LET u == Unpack(s) IN IF u.csr = "none" THEN [u EXCEPT !.csr = IF u.res = "in" THEN "in" ELSE "lost"] ELSE u
All == 1 .. N
Init == sp = [i \in All |-> Fresh] /\ kid = <<>> /\ seen = TRUE
On(f(_), S, who) == [i \in All |-> IF i \in S THEN f(who[i]) ELSE who[i]]
Some == {All} \union { {i} : i \in All }
Parent == /\ \E S \in Some : \/ sp' = On(Pack, S, sp)
                            \/ sp' = On(Unpack, S, sp)
                            \/ sp' = On(Use, S, sp)
          /\ UNCHANGED <<kid, seen>>
Fork == kid = <<>> /\ (kid' = sp) /\ UNCHANGED <<sp, seen>>
Child == /\ kid # <<>>
         /\ \/ kid' = On(Use, All, kid)
            \/ kid' = On(Pack, All, kid)
            \/ kid' = On(Unpack, All, kid)
            \/ kid' = <<>>
         /\ UNCHANGED <<sp, seen>>
Next == Parent \/ Fork \/ Child
Spec == Init /\ [][Next]_vars
Kept(s) == s.arr # "lost" /\ s.res # "lost" /\ s.csr # "lost"
Coherent(s) == s.packed <=> s.arr = "shm"
Together(s) == (s.arr = s.res) /\ (s.csr = "none" \/ s.csr = s.arr)
NothingLost == \A i \in All : Kept(sp[i]) /\ Coherent(sp[i]) /\ Together(sp[i]) /\ (kid # <<>> => Kept(kid[i]) /\ Together(kid[i]))
==============================================================================
