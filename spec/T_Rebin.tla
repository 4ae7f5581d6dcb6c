-------------------------------- MODULE T_Rebin ---------------------------------
(* Recorded rebinning calls.  K: knots before redshift, Y: values per basis,        *)
(* q: the factors (1+z) in quarters (real knots are 4 K, so that the redshifted     *)
(* knots are q K), e: edges (or c: centres), ok: completed, shape: dimensions,       *)
(* out[z][bin][basis]: 2 L (width) * the value, exact: every value was such an       *)
(* integer.                                                                         *)
EXTENDS TraceBase
VARIABLE l
Knots == {}
Values == {}
EdgeSet == {}
LL == 1
KeepSegment == FALSE
Extrapolate == FALSE
x == <<>>
y == <<>>
e == <<>>
i == 0
j == 0
p == 0
acc == 0
out == <<>>
res == ""
M == INSTANCE Rebin
Scaled(K, q) == [k \in 1 .. Len(K) |-> K[k] * q]
Ed(v) == IF v.c = <<>> THEN v.e ELSE M!Edges(v.c)
Allowed(v) == \A z \in 1 .. Len(v.q) : M!Inside(Scaled(v.K, v.q[z]), Ed(v))
Shape(v) == (IF v.many THEN <<Len(v.q)>> ELSE <<>>) \o <<Len(Ed(v)) - 1>> \o (IF v.bases THEN <<Len(v.Y)>> ELSE <<>>)
Judge(v) ==
    IF v.kind = "edges" THEN << <<"edges lie half way between the centres", v.exact /\ v.out = M!Edges(v.c)>> >>
    ELSE IF v.kind = "limit" THEN << <<"bins that end outside the template are refused however little", ~v.inside => ~v.ok>>, <<"bins that end just inside the template are rebinned", v.inside => v.ok>> >>
    ELSE IF v.kind = "large" THEN << <<"large grids agree with the exact integral", v.same>>, <<"every redshift alone gives the same", v.alone>> >>
    ELSE << <<"bins outside the template are refused", ~Allowed(v) => ~v.ok>>,
            <<"bins inside the template are rebinned", Allowed(v) => v.ok>>,
            <<"shape of the result", v.ok => v.shape = Shape(v)>>,
            <<"every bin holds the exact mean of the template", (v.ok /\ Allowed(v) /\ v.shape = Shape(v)) =>
                  /\ v.exact
                  /\ \A z \in 1 .. Len(v.q) : \A b \in 1 .. Len(Ed(v)) - 1 : \A n \in 1 .. Len(v.Y) :
                        v.out[z][b][n] = M!Integral(Scaled(v.K, v.q[z]), v.Y[n], Ed(v)[b], Ed(v)[b+1], v.L)>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
