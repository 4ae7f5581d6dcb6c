------------------------------- MODULE Gather --------------------------------
(* Collection of the results on the root process (redrock.zfind): every other *)
(* rank announces a number of messages and then sends its results in batches; *)
(* the root receives rank by rank: first the number, then that many messages. *)
(* A barrier ends the exchange.                                               *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,       \* ranks
          Batch,   \* results per message
          MaxLoc,  \* largest number of results on one rank
          Sync,
          Rounding \* "up": announced = ceil; "down": (wrong variant) floor

Ranks == 0 .. N - 1
VARIABLES n,       \* rank -> number of local results (results are <<rank, i>>)
          pc, out, \* sender: messages still to be sent
          chan,    \* rank -> sequence of messages to the root
          root,    \* results held by the root: sequence
          cur, todo, taken
vars == <<n, pc, out, chan, root, cur, todo, taken>>

Ceil(a, b) == (a + b - 1) \div b
Announce(k) == IF k < Batch THEN 1 ELSE IF Rounding = "up" THEN Ceil(k, Batch) ELSE k \div Batch
RECURSIVE Batches(_, _, _)
Batches(r, from, k) == IF from > k THEN <<>>
                       ELSE LET to == IF from + Batch - 1 < k THEN from + Batch - 1 ELSE k
                            IN << [kind |-> "data", items |-> [i \in 1 .. to - from + 1 |-> <<r, from + i - 1>>]] >> \o Batches(r, to + 1, k)
Messages(r) == << [kind |-> "count", items |-> <<Announce(n[r])>>] >> \o
               (IF n[r] < Batch THEN << [kind |-> "data", items |-> [i \in 1 .. n[r] |-> <<r, i>>]] >> ELSE Batches(r, 1, n[r]))

Init == /\ n \in [Ranks -> 0 .. MaxLoc]
        /\ pc = [r \in Ranks |-> IF r = 0 THEN "recvcount" ELSE "send"]
        /\ out = [r \in Ranks |-> IF r = 0 THEN <<>> ELSE Messages(r)]
        /\ chan = [r \in Ranks |-> <<>>]
        /\ root = [i \in 1 .. n[0] |-> <<0, i>>]
        /\ cur = 1 /\ todo = 0 /\ taken = [r \in Ranks |-> 0]

Send(r) == /\ r # 0 /\ pc[r] = "send" /\ out[r] # <<>>
           /\ chan' = [chan EXCEPT ![r] = Append(@, Head(out[r]))]
           /\ out' = [out EXCEPT ![r] = Tail(@)]
           /\ pc' = [pc EXCEPT ![r] = IF Sync THEN "wait" ELSE IF out'[r] = <<>> THEN "barrier" ELSE "send"]
           /\ UNCHANGED <<n, root, cur, todo, taken>>
WaitTaken(r) == /\ r # 0 /\ pc[r] = "wait" /\ chan[r] = <<>>
                /\ pc' = [pc EXCEPT ![r] = IF out[r] = <<>> THEN "barrier" ELSE "send"]
                /\ UNCHANGED <<n, out, chan, root, cur, todo, taken>>
RecvCount == /\ pc[0] = "recvcount"
             /\ IF cur > N - 1 THEN pc' = [pc EXCEPT ![0] = "barrier"] /\ UNCHANGED <<chan, todo>>
                ELSE /\ chan[cur] # <<>> /\ Head(chan[cur]).kind = "count"
                     /\ todo' = Head(chan[cur]).items[1]
                     /\ chan' = [chan EXCEPT ![cur] = Tail(@)]
                     /\ pc' = [pc EXCEPT ![0] = "recvdata"]
             /\ UNCHANGED <<n, out, root, cur, taken>>
RecvData == /\ pc[0] = "recvdata"
            /\ IF todo = 0 THEN cur' = cur + 1 /\ pc' = [pc EXCEPT ![0] = "recvcount"] /\ UNCHANGED <<chan, root, todo>>
               ELSE /\ chan[cur] # <<>> /\ Head(chan[cur]).kind = "data"
                    /\ root' = root \o Head(chan[cur]).items
                    /\ chan' = [chan EXCEPT ![cur] = Tail(@)]
                    /\ todo' = todo - 1 /\ UNCHANGED <<cur, pc>>
            /\ UNCHANGED <<n, out, taken>>
Barrier == /\ \A r \in Ranks : pc[r] = "barrier"
           /\ pc' = [r \in Ranks |-> "end"]
           /\ UNCHANGED <<n, out, chan, root, cur, todo, taken>>
AllEnded == \A r \in Ranks : pc[r] = "end"
Next == (\E r \in Ranks : Send(r) \/ WaitTaken(r)) \/ RecvCount \/ RecvData \/ Barrier \/ (AllEnded /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All == UNION { { <<r, i>> : i \in 1 .. n[r] } : r \in Ranks }
ExactlyOnce == AllEnded => Len(root) = Cardinality(All) /\ { root[i] : i \in 1 .. Len(root) } = All
NeverTwice == \A i, j \in 1 .. Len(root) : i # j => root[i] # root[j]
NothingLeft == AllEnded => \A r \in Ranks : chan[r] = <<>>
Ends == <>AllEnded
================================================================================
