--------------------------------- MODULE T_Wrap ----------------------------------
(* Recorded runs of the batch driver.  files: [cat, det] before the run; att: the     *)
(* attempts in the order of their beginning, [f, ok, from, to, input, outs, opts];     *)
(* dry: no commands asked for; stopped: the batch was killed; ended: every rank came   *)
(* to its end without an error; strange: commands for anything else; lost: logs that    *)
(* are gone or changed, attempts without a log of their own.                            *)
EXTENDS TraceBase
VARIABLE l
Files == {}
Ranks == {}
NRuns == 0
ByCatalog == FALSE
Overlap == FALSE
Overwrite == FALSE
StopOnFail == FALSE
Forget == FALSE
Misplan == FALSE
cat == {}
det == {}
owner == <<>>
tries == <<>>
last == <<>>
made == <<>>
kept == <<>>
run == 0
phase == ""
stopped == {}
W == INSTANCE Wrap
All(e) == 1 .. Len(e.files)
C(e) == { f \in All(e) : e.files[f].cat }
D(e) == { f \in All(e) : e.files[f].det }
Pending(e) == All(e) \ W!Done(C(e), D(e))
Of(e, f) == { i \in 1 .. Len(e.att) : e.att[i].f = f }
Tries(e, f) == LET s == Of(e, f) IN [k \in 1 .. Cardinality(s) |-> e.att[CHOOSE i \in s : Cardinality({ j \in s : j <= i }) = k]]
Proper(t) == \/ Len(t) = 0
             \/ Len(t) = 1
             \/ Len(t) = 2 /\ ~t[1].ok
Full(t) == (Len(t) = 1 /\ t[1].ok) \/ (Len(t) = 2 /\ ~t[1].ok)
Serial(t) == \A i, j \in 1 .. Len(t) : i < j => t[i].to < t[j].from
Judge(e) ==
    IF e.kind = "noinput" THEN << <<"without any input every rank ends with an error", e.error /\ ~e.hang>>, <<"without any input nothing is run", e.att = 0>> >>
    ELSE IF e.kind = "real" THEN << <<"the real command makes both outputs of every file", e.ok>>, <<"outputs are those of the targets of the file", e.same>>, <<"the second run does nothing", e.idle>> >>
    ELSE IF e.kind = "plan" THEN
         << <<"a job is printed exactly when a file is pending", e.srun = (IF e.pending > 0 THEN 1 ELSE 0)>>,
            <<"the job runs this driver", e.pending > 0 => e.same>>,
            <<"the job has at least one node", e.pending > 0 => e.nodes >= 1>>,
            <<"the job has no more nodes than allowed", e.ranks = 0 => e.nodes <= e.maxnodes>> >>
    ELSE << <<"nothing else is run", e.strange = <<>>>>,
            <<"a file whose two outputs exist is not run", \A i \in 1 .. Len(e.att) : e.att[i].f \in Pending(e)>>,
            <<"a dry run or plan runs nothing", e.dry => e.att = <<>> >>,
            <<"every pending file is run", (~e.dry /\ ~e.stopped) => \A f \in Pending(e) : Of(e, f) # {}>>,
            <<"a failing file is tried once more", (~e.dry /\ ~e.stopped) => \A f \in Pending(e) : Of(e, f) # {} => Full(Tries(e, f))>>,
            <<"no file is tried again after success or more than twice", \A f \in All(e) : Proper(Tries(e, f))>>,
            <<"the attempts of a file follow one another", \A f \in All(e) : Serial(Tries(e, f))>>,
            <<"each command has the input and the outputs of its file and the options asked for", \A i \in 1 .. Len(e.att) : e.att[i].input /\ e.att[i].outs /\ e.att[i].opts>>,
            <<"every log is kept", e.lost = <<>> >>,
            <<"nothing but the logs is touched", e.touched = <<>> >>,
            <<"the run ends normally", ~e.stopped => e.ended>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
