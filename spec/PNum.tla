-------------------------------- MODULE PNum --------------------------------
(* Laws of the arithmetic of the specification, for all integers.           *)
(* Checked with Apalache.                                                   *)
EXTENDS Num
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  k,
  \* @type: Int;
  d
Init == n \in Int /\ k \in Int /\ d \in Int /\ n <= k /\ d > 0
Next == UNCHANGED <<n, k, d>>
(* RDiv is nearest, grows with its numerator, and keeps the bounds of a fraction *)
Nearest == 2 * Abs(RDiv(n, d) * d - n) <= d
Growing == RDiv(n, d) <= RDiv(k, d)
Products == n * d <= k * d
(* inches are 25.4 mm, to the nearest unit *)
Inches == 2 * Abs(5 * ToMM(n) - 127 * n) <= 5 /\ ToMM(n) <= ToMM(k) /\ (n % 5 = 0 => 5 * ToMM(n) = 127 * n)
          /\ Abs(ToMM(n) + ToMM(k) - ToMM(n + k)) <= 1
Inv == Nearest /\ Growing /\ Products /\ Inches
=============================================================================
