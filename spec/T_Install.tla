------------------------------- MODULE T_Install ------------------------------
(* "install": a run of install_redrock_templates; "convert": a run of         *)
(* rrconvertSDSStemplates.                                                    *)
EXTENDS TraceBase
VARIABLE l
d == ""
N == INSTANCE Install WITH Versions <- {}, Good <- {}, Latest <- "", Force <- FALSE, Trust <- FALSE, AnyVersion <- FALSE,
     dir <- d, before <- d, want <- d, pc <- d, exit <- d, crashed <- FALSE
C == INSTANCE Convert WITH Chars <- {}, MaxName <- 0, MaxFiles <- 0, KeepDash <- FALSE, AllRows <- FALSE, names <- <<>>, out <- {}

JudgeInstall(e) ==
    LET o == N!Outcome(e.before, e.want, Rng(e.versions), Rng(e.good)) IN
    << <<"the command succeeds exactly if the templates asked for are installed and load", (e.exit = 0) = o.ok>>,
       <<"the directory has the version asked for, or what it had", e.dir = o.dir>>,
       <<"nothing else is written", e.others = <<>> >>,
       <<"what is installed is what redrock finds", (o.ok /\ e.exit = 0) => e.found = e.want>> >>

JudgeConvert(e) ==
    LET want == IF e.named THEN C!Templates(e.names) ELSE { << <<>>, <<>>, [i \in 1 .. e.rows |-> i]>> }
        got == { <<e.out[i].file, e.out[i].sub, e.out[i].rows>> : i \in 1 .. Len(e.out) } IN
    << <<"the conversion ends normally", e.ok>>,
       <<"a file without templates gives none", e.valid \/ e.out = <<>> >>,
       <<"one template for every name with its own spectrum", (e.ok /\ e.valid) => got = want>>,
       <<"type, wavelengths and version are those of the input", (e.ok /\ e.valid) => \A i \in 1 .. Len(e.out) : e.out[i].same>>,
       <<"files of other templates are kept", e.kept>> >>

Judge(e) == CASE e.kind = "install" -> JudgeInstall(e) [] e.kind = "convert" -> JudgeConvert(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
===============================================================================
