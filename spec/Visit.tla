------------------------------- MODULE Visit --------------------------------
(* Walking over the layers of a program, and pausing at printed layers.     *)
EXTENDS Layers, Sequences

(* c: cut program so far.  s: state of the printer and heights;             *)
(* y: sections <<[z, from, to, ext]>>, ext: some line of it extrudes        *)
CutStart(h) == [s |-> Start(h), y |-> <<>>]
CutLine(c, l, n) ==
  LET s2 == Advance(c.s, l) IN
  [s |-> s2,
   y |-> IF s2.new \/ c.y = <<>> THEN Append(c.y, [z |-> s2.z, from |-> n, to |-> n, ext |-> s2.m.ext])
         ELSE [c.y EXCEPT ![Len(c.y)] = [z |-> @.z, from |-> @.from, to |-> n, ext |-> @.ext \/ s2.m.ext]]]

Heights(c) == {z \in c.s.zs: Has(z)}
IsPrinted(c, j) == c.y[j].z \in Heights(c)
Rank(c, z) == Cardinality({w \in Heights(c): w < z})
(* number given to visitors: rank of the printed height, else index of the layer *)
Number(c, j) == IF IsPrinted(c, j) THEN Rank(c, c.y[j].z) ELSE j - 1

(* first section printing at its height *)
Starts(c, j) == c.y[j].ext /\ IsPrinted(c, j) /\ \A i \in 1..(j - 1): ~(c.y[i].ext /\ c.y[i].z = c.y[j].z)
PausesAt(c, j, P) == Starts(c, j) /\ Rank(c, c.y[j].z) \in P
PauseAt(c, P) == {j \in 1..Len(c.y): PausesAt(c, j, P)}
=============================================================================
