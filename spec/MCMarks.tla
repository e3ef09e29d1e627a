------------------------------ MODULE MCMarks -------------------------------
(* All programs of N blocks (loops, fills, travels, layers) of a dialect.   *)
(* A block: lines [mk, new, travel, p] (p: point of a loop), sort: "outer", *)
(* "inner", "loop", "external" (Slic3r) loops, "layer" or "other"           *)
EXTENDS Stretch, TLC, Json, IOUtils
Blocks == ndJsonDeserialize(IOEnv.ALPHABET)
D == IOEnv.DIALECT
CONSTANT N
VARIABLES prog, g, want, lines     \* g marking state; lines: <<kind by lines, kind wanted>> of the last block
vars == <<prog, g, want, lines>>
Init == prog = <<>> /\ g = MarksStart /\ want = TRUE /\ lines = <<>>
(* want: in Slic3r, is the next external perimeter the outer one *)
Kind(b) == CASE b.sort = "outer" -> Outer [] b.sort = "inner" -> Inner [] b.sort = "loop" -> Extra
             [] b.sort = "external" -> (IF want THEN Outer ELSE Inner) [] OTHER -> None
RECURSIVE Run(_, _, _)
Run(s, b, k) == IF k > Len(b.lines) THEN <<>> ELSE
  LET l == b.lines[k]
      after == {q \in (k + 1)..Len(b.lines): b.lines[q].mk \in {1, 2}}
      s2 == Mark(D, s, l.new, l.mk, 100 * Len(prog) + k, IF after = {} THEN 0 ELSE b.lines[SetMin(after)].mk, l.travel) IN
  <<s2>> \o Run(s2, b, k + 1)
Step(a) == LET b == Blocks[a] r == Run(g, b, 1) IN
  /\ Len(prog) < N /\ prog' = Append(prog, a)
  /\ g' = r[Len(r)]
  /\ want' = IF b.sort = "layer" THEN TRUE ELSE IF b.sort = "external" THEN FALSE ELSE want
  /\ lines' = [k \in 1..Len(r) |-> <<r[k].kind, IF b.lines[k].p THEN Kind(b) ELSE None, r[k].start>>]
  /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))
Next == \E a \in 1..Len(Blocks): Step(a)
Spec == Init /\ [][Next]_vars
(* points of loops have the kind of the loop; all of a loop have the same start; the rest isn't in loops *)
Agree == \A k \in 1..Len(lines): prog # <<>> /\ Blocks[prog[Len(prog)]].lines[k].p => lines[k][1] = lines[k][2]
OneStart == lines # <<>> =>
  LET b == Blocks[prog[Len(prog)]]
      S == {lines[k][3]: k \in {q \in 1..Len(lines): b.lines[q].p}}
      again == {q \in 1..Len(lines): b.lines[q].travel /\ \E k \in 1..(q - 1): b.lines[k].p} IN     \* second loops
  Cardinality(S) <= 1 + Cardinality(again)
Fills == \A k \in 1..Len(lines): Blocks[prog[Len(prog)]].sort = "other" /\ Blocks[prog[Len(prog)]].lines[k].fill => lines[k][1] = None
=============================================================================
