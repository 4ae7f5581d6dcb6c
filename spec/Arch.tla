---------------------------------- MODULE Arch -----------------------------------
(* A candidate redshift refitted with archetypes: every archetype is fitted alone,  *)
(* the best one (or the K best ones together) is reported by name, its coefficients *)
(* and those of the polynomials of every camera are put into one row of a table, and *)
(* the model is later evaluated from that row.                                       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N,           \* number of archetypes
          K,           \* how many are combined (0: only the best one)
          Cams,        \* the cameras in the order of the data
          Width,       \* coefficient columns of the table
          Levels,      \* chi-squared of a fit with one archetype
          ByIndex,     \* names in the order of the file, coefficients in that of chi-squared (wrong)
          ByName,      \* polynomials read back in alphabetical order of the cameras       (wrong)
          Short,       \* more archetypes wanted than there are is not noticed              (wrong)
          NoPoly       \* a row without archetype part is taken as a fit without data       (wrong)
VARIABLES chi, phase, pick, row, model
vars == <<chi, phase, pick, row, model>>
Archs == 1 .. N
Least(a, b) == IF a < b THEN a ELSE b
Many(n, k) == IF k = 0 THEN 1 ELSE Least(n, k)
\* pick: a sequence of different archetypes, in order of chi-squared, none of the others is better
Proper(p, n, k) == Len(p) = Many(n, k) /\ (\A i \in 1 .. Len(p) : p[i] \in 1 .. n) /\ \A i, j \in 1 .. Len(p) : i # j => p[i] # p[j]
\* known: archetypes whose chi-squared can be compared
Best(p, c, n, k, known) ==
    /\ Proper(p, n, k)
    /\ \A i, j \in 1 .. Len(p) : (i < j /\ p[i] \in known /\ p[j] \in known) => c[p[i]] <= c[p[j]]
    /\ \A i \in 1 .. Len(p) : \A a \in known : (p[i] \in known /\ a \notin { p[j] : j \in 1 .. Len(p) }) => c[p[i]] <= c[a]
Sorted(s) == CHOOSE t \in [1 .. Len(s) -> { s[i] : i \in 1 .. Len(s) }] : \A i, j \in 1 .. Len(s) : i < j => t[i] < t[j]
SeqsOf(S, m) == [1 .. m -> S]
None == [names |-> <<>>, coeff |-> <<>>, poly |-> <<>>]
Init == chi \in [Archs -> Levels] /\ phase = "scan" /\ pick = <<>> /\ row = None /\ model = [a |-> {}, p |-> {}]
Choose == /\ phase = "scan" /\ phase' = "fit"
          /\ pick' \in { p \in SeqsOf(Archs, Many(N, K)) : Best(p, chi, N, K, Archs) }
          /\ UNCHANGED <<chi, row, model>>
\* the coefficient of archetype a is <<"a", a>>, or zero when the fit puts it to the bound; those of camera c are <<"c", c>>
Coeff(zero) == [i \in 1 .. Len(pick) |-> IF pick[i] \in zero THEN <<"0", 0>> ELSE <<"a", pick[i]>>]
Store == /\ phase = "fit" /\ phase' = "stored"
         /\ \E zero \in SUBSET { pick[i] : i \in 1 .. Len(pick) } :
              LET c == Coeff(zero)
                  m == IF Short THEN K ELSE Len(c)
              IN row' = [names |-> IF ByIndex THEN Sorted(pick) ELSE pick,
                         coeff |-> [i \in 1 .. IF Width > m THEN Width ELSE m |-> IF i <= Len(c) THEN c[i] ELSE <<"0", 0>>],
                         poly |-> [i \in 1 .. Len(Cams) |-> <<"c", Cams[i]>>]]
         /\ UNCHANGED <<chi, pick, model>>
Evaluate == /\ phase = "stored" /\ phase' = "done"
            /\ LET order == IF ByName THEN Sorted(Cams) ELSE Cams
                   empty == NoPoly /\ \A i \in 1 .. Len(row.coeff) : row.coeff[i] = <<"0", 0>>
               IN model' = IF empty THEN [a |-> {}, p |-> {}]
                           ELSE [a |-> { <<row.names[i], row.coeff[i]>> : i \in 1 .. Len(row.names) }, p |-> { <<order[i], row.poly[i]>> : i \in 1 .. Len(Cams) }]
            /\ UNCHANGED <<chi, pick, row>>
Next == Choose \/ Store \/ Evaluate
Spec == Init /\ [][Next]_vars
Lowest == phase # "scan" => \E i \in 1 .. Len(pick) : \A a \in Archs : chi[pick[i]] <= chi[a]
Reproduced == phase = "done" => /\ \A x \in model.a : x[2] \in { <<"a", x[1]>>, <<"0", 0>> }
                                /\ model.p = { <<Cams[i], <<"c", Cams[i]>> >> : i \in 1 .. Len(Cams) }
Fits == phase = "stored" => Len(row.coeff) = Width \/ Len(row.coeff) = Len(pick)
==============================================================================
