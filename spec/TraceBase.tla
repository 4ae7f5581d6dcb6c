------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace modules.  A trace is a file with one JSON record  *)
(* per line (path in the environment variable TRACE), recorded from the real  *)
(* code.  Verdicts are total: every record is judged by named clauses, each   *)
(* failing clause is printed as <<"BAD", line, clause>>, and the whole trace  *)
(* is consumed whatever the verdicts (postcondition TraceConsumed).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

\* clauses: a sequence of <<name, truth value>>
Report(line, clauses) ==
    \A i \in 1 .. Len(clauses) :
        IF clauses[i][2] THEN TRUE ELSE PrintT(<<"BAD", line, clauses[i][1]>>)

TraceConsumed == TLCGet("stats").diameter - 1 = Len(Events)

Rng(s) == { s[i] : i \in 1 .. Len(s) }
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
NoDup(s) == \A i, j \in 1 .. Len(s) : i # j => s[i] # s[j]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
Count(s, P(_)) == Cardinality({ i \in 1 .. Len(s) : P(s[i]) })
==============================================================================
