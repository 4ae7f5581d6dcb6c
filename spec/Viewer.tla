--------------------------------- MODULE Viewer ---------------------------------
(* The interactive display (PlotSpec): N targets, target i with cnt[i] fits.  Keys    *)
(* move between targets (up, down) and between the fits of one (left, right, around   *)
(* in a circle).  What is drawn is always the fit selected.                           *)
EXTENDS Integers, Sequences

\* selection: <<target, fit>>, targets from 1, fits from 0 (0: the best)
Keys == {"right", "left", "up", "down", "d", "x"}
Press(s, key, cnt) ==
    IF key = "right" THEN << s[1], (s[2] + 1) % cnt[s[1]] >>
    ELSE IF key = "left" THEN << s[1], (s[2] + cnt[s[1]] - 1) % cnt[s[1]] >>
    ELSE IF key = "down" /\ s[1] < Len(cnt) THEN << s[1] + 1, 0 >>
    ELSE IF key = "up" /\ s[1] > 1 THEN << s[1] - 1, 0 >>
    ELSE s
\* the part of the axes that the user looks at stays when the target stays
Redraws(s, key, cnt) == key \in {"right", "left"} \/ (key = "down" /\ s[1] < Len(cnt)) \/ (key = "up" /\ s[1] > 1)
KeepsView(s, key, cnt) == Press(s, key, cnt)[1] = s[1]
RECURSIVE Run(_, _, _)
Run(s, keys, cnt) == IF keys = <<>> THEN s ELSE Run(Press(s, Head(keys), cnt), Tail(keys), cnt)
\* targets shown: those given that have fits, in the order given
Kept(given, fitted) == SelectSeq(given, LAMBDA t : \E i \in 1 .. Len(fitted) : fitted[i] = t)

CONSTANTS N, K, KeepNum, NoCircle, Past          \* the last three: wrong variants
VARIABLES cnt, sel, drawn
vars == <<cnt, sel, drawn>>
Init == cnt \in [1 .. N -> 1 .. K] /\ sel = <<1, 0>> /\ drawn = <<1, 0>>
Wrong(key) ==
    IF KeepNum /\ key \in {"up", "down"} THEN << Press(sel, key, cnt)[1], sel[2] >>
    ELSE IF NoCircle /\ key = "right" THEN << sel[1], sel[2] + 1 >>
    ELSE IF Past /\ key = "down" THEN << sel[1] + 1, 0 >>
    ELSE Press(sel, key, cnt)
Key(key) == sel' = Wrong(key) /\ drawn' = (IF Redraws(sel, key, cnt) \/ Past THEN sel' ELSE drawn) /\ UNCHANGED cnt
Next == \E key \in Keys : Key(key)
Spec == Init /\ [][Next]_vars
InRange == sel[1] \in 1 .. N /\ sel[2] \in 0 .. cnt[sel[1]] - 1
Shown == drawn = sel
\* every fit can be reached from everywhere, and a circle leads back
Rep(key, n) == [i \in 1 .. n |-> key]
Reachable == InRange => \A t \in 1 .. N : \A k \in 0 .. cnt[t] - 1 :
    Run(sel, Rep("up", N) \o Rep("down", t - 1) \o Rep("left", IF t = 1 /\ sel[1] = 1 THEN sel[2] ELSE 0) \o Rep("right", k), cnt) = <<t, k>>
Circle == InRange => /\ Run(sel, Rep("right", cnt[sel[1]]), cnt) = sel
                     /\ Run(sel, <<"right", "left">>, cnt) = sel /\ Run(sel, <<"left", "right">>, cnt) = sel
==============================================================================
