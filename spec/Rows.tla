--------------------------------- MODULE Rows ---------------------------------
(* Row alignment of the outputs.  Ranks own targets, fit them and later        *)
(* evaluate the best models in their own order; root gathers the models in     *)
(* rank order and puts them into the order of the redshift table by sorting    *)
(* the gathered identifiers and looking every table row up.                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Targets, Ranks, Order     \* Order: the targets in the order of the table
VARIABLES own, st, got, out         \* own[r]: sequence of r's targets; got: gathered <<id, model>>; out: rows of the model image

Perms(S) == { s \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
Seqs == UNION { Perms(S) : S \in SUBSET Targets }
Parts == { o \in [Ranks -> Seqs] : /\ \A r, q \in Ranks : r # q => { o[r][i] : i \in DOMAIN o[r] } \cap { o[q][i] : i \in DOMAIN o[q] } = {}
                                   /\ UNION { { o[r][i] : i \in DOMAIN o[r] } : r \in Ranks } = Targets }
Model(t) == <<"model of", t>>
RECURSIVE CatR(_, _)
CatR(o, r) == IF r \notin Ranks THEN <<>> ELSE [i \in 1 .. Len(o[r]) |-> <<o[r][i], Model(o[r][i])>>] \o CatR(o, r + 1)
\* sort the gathered rows by identifier, look up each row of the table (binary search), map back
ArgSort(g) == CHOOSE p \in [1 .. Len(g) -> 1 .. Len(g)] : (\A i, j \in DOMAIN p : i < j => g[p[i]][1] < g[p[j]][1])
Search(g, p, t) == Cardinality({ i \in DOMAIN p : g[p[i]][1] < t }) + 1
Sorted(g) == LET p == ArgSort(g) IN [i \in 1 .. Len(Order) |-> g[p[Search(g, p, Order[i])]]]

Init == own \in Parts /\ st = "fit" /\ got = <<>> /\ out = <<>>
Gather == st = "fit" /\ st' = "gathered" /\ got' = CatR(own, 0) /\ UNCHANGED <<own, out>>
Write == st = "gathered" /\ st' = "done" /\ out' = Sorted(got) /\ UNCHANGED <<own, got>>
Next == Gather \/ Write
Spec == Init /\ [][Next]_<<own, st, got, out>>
Aligned == st = "done" => \A i \in 1 .. Len(Order) : out[i] = <<Order[i], Model(Order[i])>>
\* a writer that does not sort
WriteRaw == st = "gathered" /\ st' = "done" /\ out' = got /\ UNCHANGED <<own, got>>
SpecRaw == Init /\ [][Gather \/ WriteRaw]_<<own, st, got, out>>
Order4 == <<3, 1, 4, 2>>
Order3 == <<2, 3, 1>>
==============================================================================
