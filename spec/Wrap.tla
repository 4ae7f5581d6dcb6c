---------------------------------- MODULE Wrap -----------------------------------
(* The batch driver.  Each file has two outputs, catalog and details.  A run makes  *)
(* a list of the files that lack one of them, deals them out to the ranks, and each  *)
(* rank tries its files one after the other, a failing one once more.  Every attempt *)
(* writes a log; an earlier log is moved aside.  An attempt can succeed, fail with     *)
(* or without having written one of the outputs, or the whole batch can be stopped.   *)
(* A run can be started directly or as the job printed by an earlier plan: no matter  *)
(* which, it works on the files pending when it begins, with the options of the user. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Files, Ranks, NRuns,
          ByCatalog,      \* a file with a catalog counts as done                  (wrong)
          Overlap,        \* a file can be dealt to two ranks                      (wrong)
          Overwrite,      \* the log of an earlier attempt is overwritten          (wrong)
          StopOnFail,     \* a rank stops after a file that failed                 (wrong)
          Forget,         \* the last file of the list is dealt to nobody          (wrong)
          Misplan         \* a planned job looks for other files than were planned (wrong)
VARIABLES cat, det,       \* files that have the output
          owner,          \* file -> set of ranks, for the files of this run
          tries, last,    \* per rank and file: attempts of this run, outcome of the last
          made, kept,     \* attempts ever made and logs present, per file
          run, phase, stopped
vars == <<cat, det, owner, tries, last, made, kept, run, phase, stopped>>
Done(c, d) == c \intersect d
Todo(c, d) == IF ByCatalog THEN Files \ c ELSE Files \ Done(c, d)
Outcomes == {"ok", "fail", "failcat", "faildet"}
None == [f \in Files |-> {}]
Zero == [r \in Ranks |-> [f \in Files |-> 0]]
NoLast == [r \in Ranks |-> [f \in Files |-> "none"]]
Init == /\ cat \in SUBSET Files /\ det \in SUBSET Files
        /\ owner = None /\ tries = Zero /\ last = NoLast /\ made = [f \in Files |-> 0] /\ kept = [f \in Files |-> 0] /\ run = 0 /\ phase = "idle" /\ stopped = {}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Owners(t) == { o \in [Files -> SUBSET Ranks] : /\ \A f \in Files \ t : o[f] = {}
                                               /\ \A f \in t : IF Forget /\ f = Least(t) THEN o[f] = {} ELSE IF Overlap THEN Cardinality(o[f]) \in {1, 2} ELSE Cardinality(o[f]) = 1 }
Start == /\ phase = "idle" /\ run < NRuns /\ run' = run + 1 /\ phase' = "run" /\ stopped' = {}
         /\ \E planned \in BOOLEAN : owner' \in Owners(IF Misplan /\ planned THEN {} ELSE Todo(cat, det))
         /\ tries' = Zero /\ last' = NoLast
         /\ UNCHANGED <<cat, det, made, kept>>
Open(r, f) == r \in owner[f] /\ r \notin stopped /\ (tries[r][f] = 0 \/ (tries[r][f] = 1 /\ last[r][f] # "ok"))
Attempt(r, f, o) ==
    /\ phase = "run" /\ Open(r, f)
    /\ \A g \in Files : g # f => ~(tries[r][g] = 1 /\ Open(r, g))              \* one after the other
    /\ cat' = IF o \in {"ok", "failcat"} THEN cat \union {f} ELSE cat
    /\ det' = IF o \in {"ok", "faildet"} THEN det \union {f} ELSE det
    /\ tries' = [tries EXCEPT ![r][f] = @ + 1] /\ last' = [last EXCEPT ![r][f] = o]
    /\ made' = [made EXCEPT ![f] = @ + 1] /\ kept' = [kept EXCEPT ![f] = IF Overwrite THEN 1 ELSE @ + 1]
    /\ stopped' = IF StopOnFail /\ o # "ok" /\ tries[r][f] = 1 THEN stopped \union {r} ELSE stopped
    /\ UNCHANGED <<owner, run, phase>>
Stop == phase = "run" /\ phase' = "idle" /\ UNCHANGED <<cat, det, owner, tries, last, made, kept, run, stopped>>       \* the batch is killed
End == /\ phase = "run" /\ \A r \in Ranks : \A f \in Files : ~Open(r, f)
       /\ phase' = "end" /\ UNCHANGED <<cat, det, owner, tries, last, made, kept, run, stopped>>
Again == phase = "end" /\ phase' = "idle" /\ UNCHANGED <<cat, det, owner, tries, last, made, kept, run, stopped>>
Next == Start \/ (\E r \in Ranks, f \in Files, o \in Outcomes : Attempt(r, f, o)) \/ Stop \/ End \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(\E r \in Ranks, f \in Files, o \in Outcomes : Attempt(r, f, o)) /\ WF_vars(End)

OneRank == \A f \in Files : Cardinality({ r \in Ranks : tries[r][f] > 0 }) <= 1
Twice == \A f \in Files : \A r \in Ranks : tries[r][f] <= 2
LogsKept == kept = made
\* at the end of a run every file has both outputs or failed twice in this run
Finished == phase = "end" => \A f \in Files : (f \in cat /\ f \in det) \/ \E r \in Ranks : tries[r][f] = 2
NeverRedone == [][\A f \in Files : (phase = "run" /\ \A r \in Ranks : tries[r][f] = 0 /\ f \in Done(cat, det)) => \A r \in Ranks : tries'[r][f] = 0]_vars
Ends == (phase = "run") ~> (phase # "run")
==============================================================================
