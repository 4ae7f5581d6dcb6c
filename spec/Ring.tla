-------------------------------- MODULE Ring ---------------------------------
(* The scan in an MPI run (redrock.zscan.calc_zchi2_targets over              *)
(* redrock.templates.DistTemplate): for every template each rank starts with  *)
(* its own slice of the redshifts; it evaluates the slice it holds, sends it  *)
(* to the next rank without waiting, receives one from the previous rank,     *)
(* waits for its send to complete, and stops when its own slice is back.      *)
(* No barrier is modelled between templates (the code has one): ranks may run *)
(* ahead as far as the messages allow.                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,        \* number of ranks
          NT,       \* number of templates
          Sync,     \* TRUE: a send completes only when it was received
          Reversed, \* TRUE: (wrong variant) receive before sending
          StopEarly \* TRUE: (wrong variant) stop one slice too early

Ranks == 0 .. N - 1
Nxt(r) == (r + 1) % N
Prv(r) == (r + N - 1) % N

VARIABLES pc,      \* rank -> "eval" | "send" | "recv" | "wait" | "stop"
          tm,      \* rank -> template number (1..NT)
          piece,   \* rank -> slice it holds
          seen,    \* rank -> template -> sequence of slices evaluated
          chan,    \* dst -> sequence of <<template, slice>> sent by the previous rank
          nsent, nrecv
vars == <<pc, tm, piece, seen, chan, nsent, nrecv>>

Init == /\ pc = [r \in Ranks |-> "eval"] /\ tm = [r \in Ranks |-> 1]
        /\ piece = [r \in Ranks |-> <<1, r>>]
        /\ seen = [r \in Ranks |-> [t \in 1 .. NT |-> <<>>]]
        /\ chan = [r \in Ranks |-> <<>>]
        /\ nsent = [r \in Ranks |-> 0] /\ nrecv = [r \in Ranks |-> 0]

Eval(r) == /\ pc[r] = "eval"
           /\ seen' = [seen EXCEPT ![r][tm[r]] = Append(@, piece[r])]
           /\ pc' = [pc EXCEPT ![r] = IF Reversed THEN "recv" ELSE "send"]
           /\ UNCHANGED <<tm, piece, chan, nsent, nrecv>>
Send(r) == /\ pc[r] = "send"
           /\ chan' = [chan EXCEPT ![Nxt(r)] = Append(@, piece[r])]
           /\ nsent' = [nsent EXCEPT ![r] = @ + 1]
           /\ pc' = [pc EXCEPT ![r] = "recv"]
           /\ UNCHANGED <<tm, piece, seen, nrecv>>
Recv(r) == /\ pc[r] = "recv" /\ chan[r] # <<>>
           /\ piece' = [piece EXCEPT ![r] = Head(chan[r])]
           /\ chan' = [chan EXCEPT ![r] = Tail(@)]
           /\ nrecv' = [nrecv EXCEPT ![r] = @ + 1]
           /\ pc' = [pc EXCEPT ![r] = "wait"]
           /\ UNCHANGED <<tm, seen, nsent>>
Done(r) == piece[r][2] = (IF StopEarly THEN Nxt(r) ELSE r)
Wait(r) == /\ pc[r] = "wait"
           /\ Sync => nrecv[Nxt(r)] >= nsent[r]
           /\ IF ~Done(r) THEN pc' = [pc EXCEPT ![r] = "eval"] /\ UNCHANGED <<tm, piece>>
              ELSE IF tm[r] < NT
                   THEN /\ tm' = [tm EXCEPT ![r] = @ + 1]
                        /\ piece' = [piece EXCEPT ![r] = <<tm[r] + 1, r>>]
                        /\ pc' = [pc EXCEPT ![r] = "eval"]
                   ELSE pc' = [pc EXCEPT ![r] = "stop"] /\ UNCHANGED <<tm, piece>>
           /\ UNCHANGED <<seen, chan, nsent, nrecv>>
Step(r) == Eval(r) \/ Send(r) \/ Recv(r) \/ Wait(r)
AllStopped == \A r \in Ranks : pc[r] = "stop"
Next == (\E r \in Ranks : Step(r)) \/ (AllStopped /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A r \in Ranks : WF_vars(Step(r))

---------------------------------------------------------------------------------
NoRepeat == \A r \in Ranks, t \in 1 .. NT : \A i, j \in 1 .. Len(seen[r][t]) : i # j => seen[r][t][i] # seen[r][t][j]
OwnTemplate == \A r \in Ranks, t \in 1 .. NT : \A i \in 1 .. Len(seen[r][t]) : seen[r][t][i][1] = t
Complete == AllStopped => \A r \in Ranks, t \in 1 .. NT : Len(seen[r][t]) = N
OwnSliceBack == \A r \in Ranks : pc[r] = "stop" => piece[r] = <<NT, r>>
NothingLeft == AllStopped => \A r \in Ranks : chan[r] = <<>>
Terminates == <>AllStopped

---------------------------------------------------------------------------------
\* What a rank may observe of one template, as an automaton over the slices it is given
SliceLegal(visited, s) == s \notin visited
RoundDone(visited) == visited = Ranks
================================================================================
