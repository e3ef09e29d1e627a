-------------------------------- MODULE Temp --------------------------------
(* Temperature gradients along the height of a program (C19, C20).          *)
EXTENDS Visit, Gradient

(* sections which start at a known height above the minimum *)
Above(c, g) == {j \in 1..Len(c.y): Has(c.y[j].z) /\ c.y[j].z > g.m}
Lowest(c, g) == SetMin({c.y[j].z: j \in Above(c, g)})
Highest(c) == SetMax(Heights(c) \cup {0})
Refused(c, g) == Above(c, g) = {} \/ Lowest(c, g) >= Highest(c)
Graded(c, g, j) == ~Refused(c, g) /\ Has(c.y[j].z) /\ c.y[j].z >= Lowest(c, g) /\ c.y[j].z <= Highest(c)

=============================================================================
