------------------------------- MODULE T_Ring --------------------------------
(* Validates what the ranks of a run observed, against Ring.  Events in the   *)
(* order in which they happened (one run after the other):                    *)
(*  "begin": n (ranks), nz (redshifts of the template)                        *)
(*  "eval":  rank, slice (index), zs (numbers of the redshifts in the slice)  *)
(*  "next":  rank, slice (the slice now held), done                           *)
(*  "end":   done (per rank), left (messages never received), why             *)
(*  "scan":  a rank's assembled scan: per target the interned rows            *)
EXTENDS TraceBase
VARIABLES l, n, nz, visited, zseen, held, fin
vars == <<l, n, nz, visited, zseen, held, fin>>

e == Events[l]
Start == /\ n' = e.n /\ nz' = e.nz
         /\ visited' = [r \in 0 .. e.n - 1 |-> {}]
         /\ zseen' = [r \in 0 .. e.n - 1 |-> <<>>]
         /\ held' = [r \in 0 .. e.n - 1 |-> -1]
         /\ fin' = [r \in 0 .. e.n - 1 |-> FALSE]
Eval == /\ Report(l, << <<"a slice is evaluated only once per rank", e.slice \notin visited[e.rank]>>,
                        <<"no evaluation after the round is finished", ~fin[e.rank]>>,
                        <<"the slice evaluated is the slice held", held[e.rank] \in {-1, e.slice}>> >>)
        /\ visited' = [visited EXCEPT ![e.rank] = @ \union {e.slice}]
        /\ zseen' = [zseen EXCEPT ![e.rank] = @ \o e.zs]
        /\ held' = [held EXCEPT ![e.rank] = e.slice]
        /\ UNCHANGED <<n, nz, fin>>
Cycle == LET own == e.slice = e.own IN
        /\ Report(l, << <<"a rank stops exactly when its own slice is back", e.done = own>>,
                        <<"the own slice comes back after all others", own => visited[e.rank] = 0 .. n - 1>> >>)
        /\ held' = [held EXCEPT ![e.rank] = e.slice]
        /\ fin' = [fin EXCEPT ![e.rank] = e.done]
        /\ UNCHANGED <<n, nz, visited, zseen>>
End == /\ Report(l, << <<"every rank finishes", \A r \in 0 .. n - 1 : e.ok[r + 1]>>,
                       <<"no message is left behind", e.left = 0>>,
                       <<"every rank evaluates every redshift exactly once",
                           \A r \in 0 .. n - 1 : e.ok[r + 1] => (Len(zseen[r]) = nz /\ Rng(zseen[r]) = 1 .. nz)>>,
                       <<"every rank sees every slice", \A r \in 0 .. n - 1 : e.ok[r + 1] => (visited[r] = 0 .. n - 1 /\ fin[r])>> >>)
       /\ UNCHANGED <<n, nz, visited, zseen, held, fin>>
Scan == /\ Report(l, << <<"every rank finishes", \A i \in 1 .. Len(e.ok) : e.ok[i]>>,
                        <<"no message is left behind", e.left = 0>>,
                        <<"each rank returns its own targets", \A i \in 1 .. Len(e.mine) : Rng(e.got[i]) = Rng(e.mine[i]) /\ Len(e.got[i]) = Len(e.mine[i])>>,
                        <<"the scan is complete and in redshift order", \A i \in 1 .. Len(e.scans) : e.scans[i].got = e.scans[i].want>> >>)
        /\ UNCHANGED <<n, nz, visited, zseen, held, fin>>
Init == l = 1 /\ n = 0 /\ nz = 0 /\ visited = <<>> /\ zseen = <<>> /\ held = <<>> /\ fin = <<>>
Next == /\ l <= Len(Events) /\ l' = l + 1
        /\ CASE e.kind = "begin" -> Start
             [] e.kind = "eval" -> Eval
             [] e.kind = "next" -> Cycle
             [] e.kind = "end" -> End
             [] e.kind = "scan" -> Scan
Spec == Init /\ [][Next]_vars
==============================================================================
