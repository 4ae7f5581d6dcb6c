-------------------------------- MODULE Pool ---------------------------------
(* One batch of worker processes (redrock.zscan.calc_zchi2_targets and        *)
(* redrock.zfind.zfind): targets are shared out, every worker reports         *)
(* progress per target and then puts one message with its results; the parent *)
(* takes progress until it has counted all targets, then one result per       *)
(* worker, then joins.  A worker may raise or be killed at any point.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Targets,     \* identifiers
          NW,          \* workers
          Faults,      \* how many workers may fail
          Progress,    \* TRUE: scan (progress queue); FALSE: fit (results only)
          Watch,       \* TRUE: the parent notices workers that failed
          ByWorker     \* TRUE: results are paired with the worker's own list of targets
                       \* FALSE: (wrong variant) with the list of the worker next in turn

Workers == 1 .. NW
VARIABLES share,      \* worker -> sequence of its targets
          wpc,        \* worker -> "work" | "put" | "exit" | "gone" | "failed"
          at,         \* worker -> targets done
          qprog,      \* number of progress reports on the queue
          qout,       \* set of workers whose result is on the queue
          ppc,        \* parent: "progress" | "results" | "join" | "ok" | "error"
          counted, got, result, fails, order
vars == <<share, wpc, at, qprog, qout, ppc, counted, got, result, fails, order>>

Perms(S) == { s \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i # j => s[i] # s[j] }
Shares == { f \in [Workers -> UNION { Perms(S) : S \in SUBSET Targets }] :
              /\ \A w, v \in Workers : w # v => { f[w][i] : i \in 1 .. Len(f[w]) } \cap { f[v][i] : i \in 1 .. Len(f[v]) } = {}
              /\ UNION { { f[w][i] : i \in 1 .. Len(f[w]) } : w \in Workers } = Targets }
Started == { w \in Workers : share[w] # <<>> }

Init == /\ share \in Shares
        /\ wpc = [w \in Workers |-> IF share[w] = <<>> THEN "gone" ELSE "work"]
        /\ at = [w \in Workers |-> 0] /\ qprog = 0 /\ qout = {}
        /\ ppc = (IF Progress THEN "progress" ELSE "results")
        /\ counted = 0 /\ got = 0 /\ result = [t \in Targets |-> "none"] /\ fails = 0 /\ order = <<>>

Work(w) == /\ wpc[w] = "work"
           /\ at' = [at EXCEPT ![w] = @ + 1]
           /\ qprog' = IF Progress THEN qprog + 1 ELSE qprog
           /\ wpc' = [wpc EXCEPT ![w] = IF at[w] + 1 = Len(share[w]) THEN "put" ELSE "work"]
           /\ UNCHANGED <<share, qout, ppc, counted, got, result, fails, order>>
Put(w) == /\ wpc[w] = "put" /\ qout' = qout \union {w} /\ wpc' = [wpc EXCEPT ![w] = "exit"]
          /\ order' = Append(order, w)
          /\ UNCHANGED <<share, at, qprog, ppc, counted, got, result, fails>>
Exit(w) == /\ wpc[w] = "exit" /\ wpc' = [wpc EXCEPT ![w] = "gone"]
           /\ UNCHANGED <<share, at, qprog, qout, ppc, counted, got, result, fails, order>>
Fail(w) == /\ wpc[w] \in {"work", "put"} /\ fails < Faults
           /\ wpc' = [wpc EXCEPT ![w] = "failed"] /\ fails' = fails + 1
           /\ UNCHANGED <<share, at, qprog, qout, ppc, counted, got, result, order>>

TakeProgress == /\ ppc = "progress"
                /\ IF counted = Cardinality(Targets) THEN ppc' = "results" /\ UNCHANGED <<qprog, counted>>
                   ELSE qprog > 0 /\ qprog' = qprog - 1 /\ counted' = counted + 1 /\ UNCHANGED ppc
                /\ UNCHANGED <<share, wpc, at, qout, got, result, fails, order>>
\* result messages are delivered in the order in which they were put
First(S) == CHOOSE w \in S : \E i \in 1 .. Len(order) : order[i] = w /\ \A v \in S : \E j \in i .. Len(order) : order[j] = v
StartedSeq == CHOOSE s \in Perms(Started) : \A i, j \in 1 .. Len(s) : i < j => s[i] < s[j]
TakeResult == /\ ppc = "results"
              /\ IF got = Cardinality(Started) THEN ppc' = "join" /\ UNCHANGED <<qout, got, result>>
                 ELSE /\ qout # {}
                      /\ LET w == First(qout)
                             v == IF ByWorker THEN w ELSE StartedSeq[got + 1]
                         IN /\ qout' = qout \ {w}
                            /\ result' = [t \in Targets |->
                                 IF \E i \in 1 .. Len(share[v]) : share[v][i] = t
                                 THEN LET i == CHOOSE i \in 1 .. Len(share[v]) : share[v][i] = t
                                      IN IF i <= Len(share[w]) THEN share[w][i] ELSE "none"
                                 ELSE result[t]]
                      /\ got' = got + 1 /\ UNCHANGED ppc
              /\ UNCHANGED <<share, wpc, at, qprog, counted, fails, order>>
Notice == /\ Watch /\ ppc \in {"progress", "results"} /\ \E w \in Workers : wpc[w] = "failed"
          /\ ppc' = "error"
          /\ UNCHANGED <<share, wpc, at, qprog, qout, counted, got, result, fails, order>>
Join == /\ ppc = "join" /\ \A w \in Workers : wpc[w] \in {"gone", "failed"}
        /\ ppc' = "ok"
        /\ UNCHANGED <<share, wpc, at, qprog, qout, counted, got, result, fails, order>>
Ended == ppc \in {"ok", "error"}
Next == (\E w \in Workers : Work(w) \/ Put(w) \/ Exit(w) \/ Fail(w)) \/ TakeProgress \/ TakeResult \/ Notice \/ Join \/ (Ended /\ UNCHANGED vars)
Spec == /\ Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(Work(w)) /\ WF_vars(Put(w)) /\ WF_vars(Exit(w))
        /\ WF_vars(TakeProgress) /\ WF_vars(TakeResult) /\ WF_vars(Notice) /\ WF_vars(Join)

OwnResult == \A t \in Targets : result[t] \in {"none", t}
NoneMissing == ppc = "ok" => \A t \in Targets : result[t] = t
FailureSeen == ppc = "ok" => \A w \in Workers : wpc[w] # "failed"
NoFalseError == ppc = "error" => fails > 0
Ends == <>Ended
================================================================================
