-------------------------------- MODULE Discover ---------------------------------
(* Which template files a request stands for, how a result records the templates    *)
(* used, and how the record leads back to the files.                               *)
EXTENDS Integers, Sequences, FiniteSets

\* --- discovery -----------------------------------------------------------------
\* A line of a list file: [t, name, abs]: t in {"blank", "comment", "entry"}
RECURSIVE Entries(_)
Entries(ls) == IF ls = <<>> THEN <<>> ELSE (IF Head(ls).t = "entry" THEN <<Head(ls).path>> ELSE <<>>) \o Entries(Tail(ls))
AllIn(s, S) == \A i \in 1 .. Len(s) : s[i] \in S
Refused == <<"refused">>
Listed(ls, exist) == IF AllIn(Entries(ls), exist) THEN <<"ok", Entries(ls)>> ELSE Refused
RECURSIVE InOrder(_, _)                       \* files of a directory in alphabetic order
InOrder(S, rank) == IF S = {} THEN <<>> ELSE LET m == CHOOSE f \in S : \A g \in S : rank[f] <= rank[g] IN <<m>> \o InOrder(S \ {m}, rank)
\* r: [how, lines, hasList, matching, rank, exist, file, files]
Find(r) ==
    IF r.how = "missing" \/ r.how = "strange" THEN Refused
    ELSE IF r.how = "files" THEN <<"ok", r.files>>
    ELSE IF r.how = "file" THEN <<"ok", <<r.file>>>>
    ELSE IF r.how = "list" \/ r.hasList THEN Listed(r.lines, { r.exist[i] : i \in 1 .. Len(r.exist) })
    ELSE <<"ok", InOrder({ r.matching[i] : i \in 1 .. Len(r.matching) }, r.rank)>>

\* --- header -----------------------------------------------------------------------
\* An entry of a header: [n, fil, nam, ver] with "" for a missing key; numbered from 0
\* Names of files are built from type, subtype and version when the file is not recorded
Unknown(e) == e.ver = "unknown" /\ e.type # "STAR"
NameOf(e) == IF e.fil # "" THEN <<"file", e.fil>>
             ELSE IF Unknown(e) THEN <<"refused">>
             ELSE <<"built", e.type, IF e.sub = "" THEN "None" ELSE e.sub, IF e.ver = "unknown" THEN "0.1" ELSE e.ver>>
HasKeys(e) == e.fil # "" \/ (e.type # "" /\ e.ver # "")
RECURSIVE Names(_)
Names(es) == IF es = <<>> THEN <<>> ELSE (IF HasKeys(Head(es)) THEN <<NameOf(Head(es))>> ELSE <<>>) \o Names(Tail(es))
HeaderRefused(es) == \E i \in 1 .. Len(es) : HasKeys(es[i]) /\ NameOf(es[i]) = <<"refused">>

\* --- what a template file must say -----------------------------------------------------
\* f: [type, ver, igm, method, z]: igm, method: "" when not stated; z: redshifts are in the file
Igm(f) == IF f.igm # "" THEN f.igm
          ELSE IF f.type = "STAR" THEN "None"
          ELSE IF f.type = "GALAXY" /\ f.ver = "2.6" THEN "Calura12"
          ELSE IF f.type = "QSO" /\ f.ver \in {"0.1", "1.0"} THEN "Calura12"
          ELSE IF f.type = "QSO" /\ f.ver = "1.1" THEN "Kamble20"
          ELSE "refused"
Method(f) == IF f.method = "" THEN "PCA" ELSE IF f.method \in {"PCA", "NMF"} THEN f.method ELSE "refused"
Types == {"GALAXY", "QSO", "STAR"}
Usable(f) == f.type # "" /\ Igm(f) # "refused" /\ Method(f) # "refused" /\ (f.z \/ f.type \in Types)
\* redshift range of files that do not say: [first, last, step in 1e-7, logarithmic]
Range(type) == IF type = "GALAXY" THEN <<-50000, 17000000, 3000, TRUE>>
               ELSE IF type = "QSO" THEN <<500000, 60000000, 5000, TRUE>>
               ELSE <<-20000, 20100, 400, FALSE>>

\* --- writing a header and reading it back, keys compared as text --------------------------------
CONSTANTS NFiles, MaxT, NoPad, ByType          \* wrong variants
VARIABLES used, hdr, back, phase
vars == <<used, hdr, back, phase>>
Type(f) == f % 2
\* keys sort as text: with padding as numbers, without padding 10 comes before 2
Before(a, b) == IF NoPad THEN (IF a >= 10 /\ b < 10 THEN (a \div 10) <= b ELSE IF a < 10 /\ b >= 10 THEN a < (b \div 10) ELSE a < b) ELSE a < b
Init == used \in UNION { [1 .. n -> 1 .. NFiles] : n \in 1 .. MaxT } /\ (\A i, j \in 1 .. Len(used) : i # j => used[i] # used[j])
        /\ hdr = {} /\ back = <<>> /\ phase = "write"
Write == phase = "write" /\ Cardinality(hdr) < Len(used)
         /\ hdr' = hdr \union {<<7 + Cardinality(hdr), IF ByType THEN Type(used[Cardinality(hdr) + 1]) ELSE used[Cardinality(hdr) + 1]>>}
         /\ UNCHANGED <<used, back, phase>>
Turn == phase = "write" /\ Cardinality(hdr) = Len(used) /\ phase' = "read" /\ UNCHANGED <<used, hdr, back>>
Read == phase = "read" /\ hdr # {}
        /\ LET k == CHOOSE a \in hdr : \A b \in hdr : b = a \/ Before(a[1], b[1]) IN
           /\ hdr' = hdr \ {k}
           /\ back' = Append(back, IF ByType THEN CHOOSE f \in 1 .. NFiles : Type(f) = k[2] ELSE k[2])
        /\ UNCHANGED <<used, phase>>
Spec == Init /\ [][Write \/ Turn \/ Read]_vars
Traced == (phase = "read" /\ hdr = {}) => back = used
==============================================================================
