--------------------------------- MODULE T_Cli ----------------------------------
(* Recorded runs of the commands.                                                     *)
(* "run": o: the request (see Cli); ok: it ended normally (on every process); made:     *)
(*   outputs that are complete afterwards, strange: other files that appeared, kept: what *)
(*   was at the paths before a refused run is still there; rows: targets in each output.  *)
(* "fault": one process fails in the middle: all: every process ended with an error,      *)
(*   aborted; own: its own error came out                                              *)
(* "effect": see the fields.  "procs": number of processes.                            *)
EXTENDS TraceBase
VARIABLE l
N == 1
Abort == TRUE
CheckLate == FALSE
Swallow == FALSE
FirstOnly == FALSE
at == <<>>
asked == {}
bad == FALSE
files == {}
stopped == {}
M == INSTANCE Cli
Judge(e) ==
    IF e.kind = "run" THEN
        << <<"a request that contradicts itself or lacks something is refused", M!Refused(e.o) => ~e.ok>>,
           <<"a refused request leaves everything as it was", M!Refused(e.o) => e.kept /\ e.made = <<>> >>,
           <<"a valid request ends normally", (~M!Refused(e.o)) => e.ok>>,
           <<"all outputs asked for and no others are there after a normal end", e.ok => Rng(e.made) = M!Asked(e.o)>>,
           <<"every output is of the targets asked for", (e.ok /\ ~M!Refused(e.o)) => \A i \in 1 .. Len(e.rows) : e.rows[i] = M!Number(e.o)>>,
           <<"nothing else is written", e.strange = <<>> >> >>
    ELSE IF e.kind = "fault" THEN
        << <<"a failure of one process ends the run of all", e.abort => e.all /\ e.aborted>>,
           <<"without abort the failing process ends with its error", (~e.abort) => e.own /\ ~e.early>> >>
    ELSE IF e.kind = "rows" THEN
        << <<"at most the requested number of fits per type", \A i \in 1 .. Len(e.counts) : e.counts[i] <= M!Minima(e.o)>>,
           <<"the requested number is reached", e.many => \A i \in 1 .. Len(e.counts) : e.counts[i] = M!Minima(e.o)>>,
           <<"the number of refinement points is the one asked for", \A i \in 1 .. Len(e.points) : e.points[i] = M!Points(e.o)>> >>
    ELSE IF e.kind = "pixels" THEN
        << <<"pixels on bright sky lines and of strongly negative flux are not used", \A i \in 1 .. Len(e.targets) :
                e.targets[i].got = e.targets[i].times * M!Pixels(e.targets[i].pix, e.o)>> >>
    ELSE IF e.kind = "range" THEN
        << <<"the scan covers the range asked for with the step asked for", e.ok /\ Len(e.scan) = M!Steps(e.lo, e.hi, e.d) /\
                \A k \in 1 .. Len(e.scan) : Abs(e.scan[k] - (e.lo + (k - 1) * e.d)) <= 1>> >>
    ELSE IF e.kind = "same" THEN << <<"the results are the same", e.ok /\ e.same>> >>
    ELSE IF e.kind = "differ" THEN << <<"the option has its effect", e.ok /\ ~e.same>> >>
    ELSE << <<"number of processes", e.got = M!Procs(e.asked, e.cpus, e.login)>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
