---------------------------------- MODULE Cli -----------------------------------
(* One run of the command (rrdesi, rrboss) on N processes: the request is examined   *)
(* by the first process, all read, fit, and the first one writes the outputs asked   *)
(* for one after the other.  Any process can fail at any stage but the first.        *)
EXTENDS Integers, Sequences, FiniteSets

\* --- which requests are refused ---------------------------------------------------
\* o: [details, catalog, model: asked for; ids: identifiers given; first, count: -1 if not given;
\*     input, templates, archetypes: "ok", "none", "missing", "empty", "useless" (nothing of use in the directory), or
\*     for archetypes "file", "plain" (any name), "env", "envfile" (a path with a variable); n: targets in the file;
\*     place: where outputs go, "there", "new" (a directory that does not exist yet), "var" (a path with a variable);
\*     debug: an interactive session, for one process only; gpu: asked for, on a machine without; ranks: 0 without MPI]
Contradicts(o) == (o.debug /\ o.ranks > 1) \/ (~o.details /\ ~o.catalog) \/ (o.ids /\ (o.first >= 0 \/ o.count >= 0))
First(o) == IF o.first < 0 THEN 0 ELSE o.first
Beyond(o) == First(o) >= o.n \/ o.count = 0 \/ (o.prog = "rrdesi" /\ o.count > 0 /\ First(o) + o.count > o.n)
Number(o) == IF o.ids THEN o.chosen ELSE IF o.count < 0 \/ First(o) + o.count > o.n THEN o.n - First(o) ELSE o.count
Lacks(o) == o.input # "ok" \/ o.templates \in {"missing", "empty"} \/ o.archetypes \in {"missing", "empty", "useless"} \/ o.gpu \/ (~o.ids /\ Beyond(o))
Refused(o) == Contradicts(o) \/ Lacks(o)
Asked(o) == (IF o.details THEN {"details"} ELSE {}) \union (IF o.catalog THEN {"catalog"} ELSE {}) \union (IF o.model THEN {"model"} ELSE {})

\* --- what the options change ------------------------------------------------------
Minima(o) == IF o.nminima > 0 THEN o.nminima ELSE IF o.archetypes \notin {"none", "missing", "empty", "useless"} /\ o.prog = "rrdesi" THEN 9 ELSE 3
Points(o) == IF o.npoints > 0 THEN o.npoints ELSE 15
\* wavelengths in tenths of an Angstrom; flux in quarters of its uncertainty
Sky(w) == w \in 55720 .. 55820 \/ w \in 97920 .. 97950
Counted(p, o) == p.w > 0 /\ (o.nosky \/ ~Sky(p.x)) /\ ~(p.f < 0 - 4 * o.negflux)
Pixels(ps, o) == Cardinality({ i \in 1 .. Len(ps) : Counted(ps[i], o) })
\* redshift range: numbers of steps; the last redshift is below the upper end
Steps(lo, hi, d) == (hi - lo + d - 1) \div d
\* processes: asked for (0: half of the processors), processors, on a login node
Procs(asked, cpus, login) == LET want == IF asked = 0 THEN (IF cpus \div 2 = 0 THEN 1 ELSE cpus \div 2) ELSE IF asked > cpus THEN cpus ELSE asked IN
    IF login /\ want > 4 THEN 4 ELSE want

\* --- the run ------------------------------------------------------------------------
CONSTANTS N, Abort,
          CheckLate, Swallow, FirstOnly        \* wrong variants
Outputs == {"details", "catalog", "model"}
Order == <<"details", "catalog", "model">>
Stages == <<"check", "read", "fit", "write", "done">>
VARIABLES at, asked, bad, files, stopped
vars == <<at, asked, bad, files, stopped>>
P == 0 .. N - 1
Init == /\ at = [r \in P |-> 1] /\ asked \in SUBSET Outputs /\ bad \in BOOLEAN /\ files = {} /\ stopped = {}
Contradictory == bad \/ asked \intersect {"details", "catalog"} = {}
Live(r) == r \notin stopped /\ at[r] < 5
\* a process can leave a stage when all others have reached it (they exchange messages in each of them)
May(r) == \A q \in P : at[q] >= at[r] /\ (q \in stopped => at[q] > at[r])
Stop(r) == stopped' = IF Abort THEN P ELSE stopped \union {r}
Check == /\ Live(0) /\ at[0] = 1
         /\ IF Contradictory /\ ~CheckLate THEN Stop(0) /\ UNCHANGED at ELSE at' = [at EXCEPT ![0] = 2] /\ UNCHANGED stopped
         /\ UNCHANGED <<asked, bad, files>>
Go(r) == /\ Live(r) /\ May(r) /\ (r # 0 \/ at[r] \in {2, 3})
         /\ at' = [at EXCEPT ![r] = @ + 1] /\ UNCHANGED <<asked, bad, files, stopped>>
Next1 == CHOOSE i \in 1 .. 3 : Order[i] \in asked \ files /\ \A j \in 1 .. i - 1 : Order[j] \notin asked \ files
Write == /\ Live(0) /\ at[0] = 4
         /\ IF asked \subseteq files \/ (FirstOnly /\ files # {})
            THEN (IF Contradictory THEN Stop(0) /\ UNCHANGED at ELSE at' = [at EXCEPT ![0] = 5] /\ UNCHANGED stopped) /\ UNCHANGED files
            ELSE files' = files \union {Order[Next1]} /\ UNCHANGED <<at, stopped>>
         /\ UNCHANGED <<asked, bad>>
Fail(r) == /\ Live(r) /\ at[r] > 1
           /\ IF Swallow THEN at' = [at EXCEPT ![r] = 5] /\ UNCHANGED stopped ELSE Stop(r) /\ UNCHANGED at
           /\ UNCHANGED <<asked, bad, files>>
Next == Check \/ Write \/ \E r \in P : Go(r) \/ Fail(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Check) /\ WF_vars(Write) /\ \A r \in P : WF_vars(Go(r))
Normal == stopped = {} /\ \A r \in P : at[r] = 5
Complete == Normal => files = asked
NothingRefused == Contradictory => files = {} /\ ~Normal
OnlyAsked == files \subseteq asked
Over == \A r \in P : r \in stopped \/ at[r] = 5
Ends == <>Over
==============================================================================
