------------------------------ MODULE Gradient ------------------------------
(* The temperature of a gradient at a height.                               *)
(* A gradient g: a, b start and end temperature in tenths of degree, n      *)
(* number of steps (0: continuous), m minimum height.                       *)
(* Heights are counted in thousandths of mm.                                *)
EXTENDS Num
\* @typeAlias: gradient = {a: Int, b: Int, n: Int, m: Int};
GradientAliases == TRUE
H(z) == z \div 100
(* discrete steps reached at height z, among n *)
\* @type: (Int, Int, Int, Int) => Int;
StepOf(n, lo, hi, z) == Min2(((n + 1) * (H(z) - H(lo))) \div (H(hi) - H(lo)), n)
(* the temperature at height z is the fraction p/q of the way from a to b *)
\* @type: ($gradient, Int, Int, Int) => <<Int, Int>>;
Frac(g, lo, hi, z) == IF g.n = 0 THEN <<H(z) - H(lo), H(hi) - H(lo)>> ELSE <<StepOf(g.n, lo, hi, z), g.n>>
\* @type: (Int, Int, Int, Int, Int) => Bool;
Rounds(T, a, b, p, q) == 2 * Abs((T - a) * q - (b - a) * p) <= q
(* T, in tenths, is the temperature of height z rounded to a tenth of degree (either way at the middle); *)
(* and where the height is exactly at a step, floating point numbers may be just below                    *)
\* @type: ($gradient, Int, Int, Int) => Bool;
OnStep(g, lo, hi, z) == g.n > 0 /\ z > lo /\ z < hi /\ ((g.n + 1) * (H(z) - H(lo))) % (H(hi) - H(lo)) = 0
\* @type: ($gradient, Int, Int, Int, Int) => Bool;
Valid(g, lo, hi, z, T) ==
  LET f == Frac(g, lo, hi, z) IN
  \/ Rounds(T, g.a, g.b, f[1], f[2])
  \/ OnStep(g, lo, hi, z) /\ Rounds(T, g.a, g.b, f[1] - 1, f[2])
\* @type: ($gradient, Int, Int, Int) => Int;
Exact(g, lo, hi, z) == LET f == Frac(g, lo, hi, z) IN g.a + RDiv((g.b - g.a) * f[1], f[2])
\* @type: Int => Bool;
Safe(T) == T >= 1500 /\ T <= 2500
=============================================================================
