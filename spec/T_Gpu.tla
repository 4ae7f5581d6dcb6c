------------------------------- MODULE T_Gpu ---------------------------------
(* Judges what was recorded when the GPU code ran on the stand-in for cupy.   *)
(*  "launch": one launch of a kernel                                          *)
(*  "same":   one operation on the host (want) and on the device (got)        *)
(*  "ask":    a sequence of requests for polynomials, the answers             *)
(*  "who":    which rank has a GPU, which targets it was given                *)
(*  "many":   number of targets that each rank is given when there are many   *)
(*  "count":  devices seen by the ranks, number of GPUs found                 *)
(*  "run":    a run of rrdesi with --gpu against one without                  *)
(*  "refused": a run that is asked to use no GPU at all                       *)
EXTENDS TraceBase
VARIABLE l
Degrees == {}
Changes == 0
Stale == FALSE
Early == FALSE
data == 0
gdata == 0
deg == 0
gdeg == 0
ans == 0
hist == <<>>
D == INSTANCE Device

JudgeLaunch(e) ==
    << <<"a kernel stays inside of its arrays", e.beyond = 0>>,
       <<"threads do not disturb each other", e.races = 0>>,
       <<"arrays have the type the kernel takes them for", e.types = <<>> >> >>
JudgeSame(e) ==
    << <<"the device refuses what the host refuses", e.cpu = e.gpu>>,
       <<"the device computes what the host computes", e.cpu # "ok" \/ e.gpu # "ok" \/ e.got = e.want>> >>
\* state of the copies after the first k requests
RECURSIVE After(_, _)
After(e, k) == IF k = 0 THEN [deg |-> D!Nothing, gdeg |-> D!Nothing]
               ELSE LET s == After(e, k - 1) IN D!Poly(e.calls[k].n, e.calls[k].side, s.deg, s.gdeg)
Answer(e, k) == LET s == After(e, k) IN IF e.calls[k].side = "device" THEN s.gdeg ELSE s.deg
JudgeAsk(e) ==
    << <<"every request is answered", Len(e.got) = Len(e.calls)>>,
       <<"the polynomials asked for", \A k \in 1 .. Len(e.got) : e.got[k].n = Answer(e, k)>>,
       <<"where they were asked for", \A k \in 1 .. Len(e.got) : e.calls[k].side = "device" => e.got[k].side = "device">>,
       <<"the values of the polynomials", \A k \in 1 .. Len(e.got) : e.got[k].value = e.got[k].want>> >>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
JudgeWho(e) ==
    LET all == Cat(e.ids) IN
    << <<"every target on one rank", e.n = Len(all) /\ NoDup(all)>>,
       <<"nothing for a rank without a GPU", (\E r \in 1 .. Len(e.gpu) : e.gpu[r]) => \A r \in 1 .. Len(e.gpu) : e.gpu[r] \/ e.ids[r] = <<>> >>,
       <<"GPUs share the work evenly", \A r, s \in 1 .. Len(e.gpu) : e.gpu[r] /\ e.gpu[s] => Len(e.ids[r]) - Len(e.ids[s]) \in -1 .. 1>> >>
JudgeMany(e) ==
    << <<"the distribution completes", e.outcome = "ok">>,
       <<"every target is given to a rank", e.outcome # "ok" \/ SumSeq(e.got) = e.n>>,
       <<"nothing for a rank without a GPU", e.outcome # "ok" \/ \A r \in 1 .. Len(e.got) : e.gpu[r] \/ e.got[r] = 0>> >>
JudgeCount(e) == << <<"as many GPUs as there are", \A k \in 1 .. Len(e.got) : e.got[k] = Cardinality(Rng(e.bus))>> >>
JudgeRun(e) ==
    << <<"the run completes", e.outcome = "ok">>,
       <<"no message is left", e.left = 0>>,
       <<"same columns", e.outcome # "ok" \/ e.cols = e.refcols>>,
       <<"same rows", e.outcome # "ok" \/ e.rows = e.refrows>>,
       <<"same scan", e.outcome # "ok" \/ e.scan = e.refscan>> >>
JudgeRefused(e) == << <<"asking for GPUs and for none of them is refused", \E r \in 1 .. Len(e.outcome) : e.outcome[r] # "ok">>,
                      <<"a refused run leaves no results", e.files = <<>> >> >>
Judge(e) == CASE e.kind = "refused" -> JudgeRefused(e) [] e.kind = "launch" -> JudgeLaunch(e) [] e.kind = "same" -> JudgeSame(e) [] e.kind = "ask" -> JudgeAsk(e)
              [] e.kind = "who" -> JudgeWho(e) [] e.kind = "count" -> JudgeCount(e) [] e.kind = "many" -> JudgeMany(e) [] e.kind = "run" -> JudgeRun(e)
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
