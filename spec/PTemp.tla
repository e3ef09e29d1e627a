-------------------------------- MODULE PTemp -------------------------------
(* The law of gradients, for all temperatures, heights and numbers of steps.*)
(* That temperatures grow with height follows from Steps and PNum!Growing.  *)
(* Checked with Apalache.                                                   *)
EXTENDS Gradient
VARIABLES
  \* @type: $gradient;
  g,
  \* @type: Int;
  lo,
  \* @type: Int;
  hi,
  \* @type: Int;
  y,
  \* @type: Int;
  z
\* @type: (Bool) => Bool;
Any(discrete) ==
  /\ \E a \in Int, b \in Int, n \in Int: n >= 0 /\ (n > 0) = discrete /\ g = [a |-> a, b |-> b, n |-> n, m |-> 0]
  /\ lo \in Int /\ hi \in Int /\ y \in Int /\ z \in Int
  /\ lo % 100 = 0 /\ hi % 100 = 0
  /\ lo < hi /\ lo <= y /\ y <= z /\ z <= hi
Continuous == Any(FALSE)
Discrete == Any(TRUE)
Next == UNCHANGED <<g, lo, hi, y, z>>
S(h) == StepOf(g.n, lo, hi, h)
T(h) == Exact(g, lo, hi, h)
InRange == Min2(g.a, g.b) <= T(z) /\ T(z) <= Max2(g.a, g.b)
Ends == (z = lo => T(z) = g.a) /\ (z = hi => T(z) = g.b)
Steps == g.n > 0 => S(y) <= S(z) /\ 0 <= S(z) /\ S(z) <= g.n /\ (z = lo => S(z) = 0) /\ (z = hi => S(z) = g.n)
Inv == InRange /\ Ends /\ Steps
=============================================================================
