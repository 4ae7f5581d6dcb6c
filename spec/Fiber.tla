--------------------------------- MODULE Fiber ---------------------------------
(* What the fiber status and the object type of a target do to the warnings   *)
(* and the fit of its rows in the DESI output.                                *)
EXTENDS Integers, Sequences, FiniteSets
SkyT == "SKY"
TgtT == "TGT"
BadObj(o) == o # SkyT /\ o # TgtT
NoData(st, o) == ("BADPOSITION" \in st) \/ ("BROKENFIBER" \in st) \/ ("UNASSIGNED" \in st) \/ BadObj(o)
Amp == {"BADAMPB", "BADAMPR", "BADAMPZ"}
\* warning bits added
Added(st, o) ==
    (IF "POORPOSITION" \in st THEN {"POORDATA"} ELSE {}) \union
    (IF NoData(st, o) THEN {"NODATA"} ELSE {}) \union
    (IF "BROKENFIBER" \in st THEN {"UNPLUGGED"} ELSE {}) \union
    (IF o = SkyT THEN {"SKY"} ELSE {}) \union
    (IF st \intersect Amp # {} THEN {"LITTLE_COVERAGE"} ELSE {}) \union
    (IF BadObj(o) THEN {"BAD_TARGET"} ELSE {})

\* the row after the fit (fit) -> the row in the output
Blank == [type |-> "GALAXY", sub |-> "", z |-> "zero", coeff |-> "zero", method |-> "NONE"]
OutRow(fit, st, o) ==
    LET b == NoData(st, o) IN
    [type |-> IF b THEN Blank.type ELSE fit.type, sub |-> IF b THEN Blank.sub ELSE fit.sub, z |-> IF b THEN Blank.z ELSE fit.z,
     coeff |-> IF b THEN Blank.coeff ELSE fit.coeff, method |-> IF b THEN Blank.method ELSE fit.method,
     zw |-> fit.zw \union Added(st, o), rest |-> fit.rest]

\* status of a target over its exposures: bits set on all usable exposures; when there is no usable one, bits set on any
RECURSIVE AndAll(_)
AndAll(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \intersect AndAll(Tail(s))
RECURSIVE OrAll(_)
OrAll(s) == IF s = <<>> THEN {} ELSE s[1] \union OrAll(Tail(s))

(* model: laws which the mapping has, checked over all statuses *)
Names == {"POORPOSITION", "BADPOSITION", "BROKENFIBER", "UNASSIGNED", "BADAMPB", "BADAMPR", "BADAMPZ", "STUCKPOSITIONER"}
VARIABLES st, o, done
Fit == [type |-> "QSO", sub |-> "HIZ", z |-> "1", coeff |-> "2", method |-> "PCA", zw |-> {"SMALL_DELTA_CHI2"}, rest |-> "3"]
Init == st \in SUBSET Names /\ o \in {"TGT", "SKY", "BAD", ""} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<st, o>>
Spec == Init /\ [][Next]_<<st, o, done>>
KeepsFitWarnings == Fit.zw \subseteq OutRow(Fit, st, o).zw
GoodUnchanged == (st \subseteq {"STUCKPOSITIONER"} /\ o = "TGT") => OutRow(Fit, st, o) = Fit
BlankIffNoData == (OutRow(Fit, st, o).method = "NONE") <=> ("NODATA" \in OutRow(Fit, st, o).zw)
Monotone == \A b \in Names : Added(st, o) \subseteq Added(st \union {b}, o)
NotOnly == OutRow(Fit, st, o).rest = Fit.rest
================================================================================
