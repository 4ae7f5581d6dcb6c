-------------------------------- MODULE Minfit --------------------------------
(* The parabola through three points, in exact integer arithmetic, and the    *)
(* warnings that follow from it.  y = (A x^2 + B x + C) / D,  D > 0.          *)
EXTENDS Integers
DD(x) == (x[2] - x[1]) * (x[3] - x[1]) * (x[3] - x[2])
AA(x, y) == y[1] * (x[3] - x[2]) - y[2] * (x[3] - x[1]) + y[3] * (x[2] - x[1])
BB(x, y) == -(y[1] * (x[2] + x[3]) * (x[3] - x[2]) - y[2] * (x[1] + x[3]) * (x[3] - x[1]) + y[3] * (x[1] + x[2]) * (x[2] - x[1]))
CC(x, y) == y[1] * x[2] * x[3] * (x[3] - x[2]) - y[2] * x[1] * x[3] * (x[3] - x[1]) + y[3] * x[1] * x[2] * (x[2] - x[1])

\* the vertex is -B / 2A; comparisons with a number t
Above(x, y, t) == LET a == AA(x, y) IN IF a > 0 THEN -BB(x, y) > 2 * a * t ELSE -BB(x, y) < 2 * a * t
Below(x, y, t) == LET a == AA(x, y) IN IF a > 0 THEN -BB(x, y) < 2 * a * t ELSE -BB(x, y) > 2 * a * t
\* minimum value (4AC - B^2) / 4AD > zero level z
Positive(x, y, z) == LET a == AA(x, y) IN 4 * a * CC(x, y) - BB(x, y) * BB(x, y) > 4 * a * DD(x) * z

GoodFit(x, y, z) == AA(x, y) > 0 /\ Above(x, y, x[1]) /\ Below(x, y, x[3]) /\ Positive(x, y, z)
===============================================================================
