------------------------------- MODULE T_LeastSq ---------------------------------
(* Recorded solutions, one per target and redshift.  d, P: see LeastSq.tla; method;   *)
(* bounded: coefficients that must not be negative; cn, N: the rational number at the  *)
(* coefficients (near: they are within rounding of it), chi: chi-squared, huge: it is   *)
(* the value of failed fits, zero: all coefficients zero; x2: N^2 chi-squared (if       *)
(* N <= 300), x1: N chi-squared, xnear: those were integers; pen: N times the penalty   *)
(* (oii: summed flux of each basis vector around the line; empty: not asked)            *)
EXTENDS TraceBase
VARIABLE l
TV == {}
FV == {}
WV == {}
NonNeg == FALSE
Normal == FALSE
Clip == FALSE
Unweighted == FALSE
d == <<>>
S == {}
steps == 0
st == ""
Q == INSTANCE LeastSq
B(e) == { e.bounded[i] : i \in 1 .. Len(e.bounded) }
Zero(P) == \A a \in 1 .. Len(P) : \A b \in 1 .. Len(P) : P[a][b] = 0
Known == "non-negative coefficients are those of the normal equations and not of the lowest chi-squared"
Judge(e) ==
    IF e.kind = "unknown" THEN << <<"an unknown method is refused", e.refused>> >>
    ELSE IF ~e.done THEN << <<"the fit completes", FALSE>> >>
    ELSE LET M == Q!Mat(e.d, e.P) y == Q!Rhs(e.d) none == Q!NoWeight(e.d) /\ e.whole sing == Q!Det(M) = 0
             lost == e.huge
             fit == ~lost
             g == Q!Grad(M, y, e.cn, e.N)
             good == e.near /\ Q!Feasible(e.cn, B(e)) /\ Q!Stationary(g, e.cn, B(e))
             normal == e.near /\ B(e) # {} /\ Q!Feasible(e.cn, B(e)) /\ Q!Stationary(Q!Grad2(M, y, e.cn, e.N), e.cn, B(e)) IN
      << <<"a target without weight or a singular system gives the value of failed fits", (none \/ (sing /\ e.method = "PCA")) => lost>>,
         <<"a failed fit has no coefficients", (lost /\ e.chi) => e.zero>>,
         <<"a system that can be solved is solved", (~none /\ ~sing) => fit>>,
         <<"coefficients have the lowest chi-squared", fit => good \/ normal>>,
         <<Known, fit => good \/ ~normal>>,
         <<"chi-squared is that of the coefficients", (fit /\ e.chi /\ e.near) =>
              IF e.N <= 300 THEN e.xnear /\ e.x2 = Q!Chi2N2(e.d, e.cn, e.N)
              ELSE IF good /\ Zero(e.P) THEN e.xnear /\ e.x1 = Q!Chi2N(e.d, y, e.cn, e.N) ELSE TRUE>>,
         <<"penalty of a negative line", (e.oii # <<>> /\ (lost \/ e.near)) =>
              e.pen = (IF lost THEN 0 ELSE Max(0, -Q!SumTo([b \in 1 .. Len(e.oii) |-> e.oii[b] * e.cn[b]], Len(e.oii))))>> >>
Init == l = 1
Next == l <= Len(Events) /\ Report(l, Judge(Events[l])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
==============================================================================
