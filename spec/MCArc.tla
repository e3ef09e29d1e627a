------------------------------- MODULE MCArc --------------------------------
(* Design of the optimizer: a queue of lines, which is flushed as an arc    *)
(* when a line ends a run.  Lines are classes: 1, 2 segments which turn left*)
(* or right on a circle with their neighbours of the same class, 3 other    *)
(* segments, 4 comments, 5 other commands.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, Min
VARIABLES prog, queue, valid, out
vars == <<prog, queue, valid, out>>
\* queue: line numbers; out: line numbers (positive), or arcs <<from, to>>
Line(k) == [arc |-> FALSE, a |-> k, b |-> k]
Init == prog = <<>> /\ queue = <<>> /\ valid = FALSE /\ out = <<>>
Lines(q) == [k \in 1..Len(q) |-> Line(q[k])]
Fits(p, q) == /\ Len(q) > Min
              /\ \E c \in {1, 2}: \A k \in 2..Len(q): p[q[k]] = c
ArcOf(q) == <<Line(q[1]), [arc |-> TRUE, a |-> q[2], b |-> q[Len(q)]]>>
Step(c) ==
  LET p == Append(prog, c)
      k == Len(p)
      q == Append(queue, k)
      move == c \in {1, 2, 3} IN
  /\ k <= N /\ prog' = p
  /\ IF c = 4 /\ queue = <<>> THEN out' = Append(out, Line(k)) /\ UNCHANGED <<queue, valid>>
     ELSE IF Len(q) <= Min THEN
       IF move \/ c = 4 THEN queue' = q /\ UNCHANGED <<out, valid>>
       ELSE queue' = <<>> /\ out' = out \o Lines(q) /\ valid' = FALSE
     ELSE IF ~move THEN
       /\ out' = out \o (IF valid THEN Append(ArcOf(queue), Line(k)) ELSE Lines(q))
       /\ queue' = <<>> /\ valid' = FALSE
     ELSE IF Fits(p, q) THEN queue' = q /\ valid' = TRUE /\ UNCHANGED out
     ELSE IF valid THEN out' = out \o ArcOf(queue) /\ queue' = <<k>> /\ valid' = FALSE
     ELSE out' = Append(out, Line(q[1])) /\ queue' = Tail(q) /\ UNCHANGED valid
  /\ k = N => PrintT("P" \o ToJson([p |-> p, arcs |-> out' \o Lines(queue')]))
Next == \E c \in 1..5: Step(c)
Spec == Init /\ [][Next]_vars

All == out \o Lines(queue)
(* every line once, in order *)
Lossless == /\ \A k \in 1..Len(All): All[k].a = IF k = 1 THEN 1 ELSE All[k - 1].b + 1
            /\ (prog # <<>> => All[Len(All)].b = Len(prog))
(* arcs replace at least Min segments of one circle *)
Pure == \A k \in 1..Len(All): All[k].arc => /\ All[k].b - All[k].a + 1 >= Min
                                            /\ \E c \in {1, 2}: \A j \in All[k].a..All[k].b: prog[j] = c
(* runs which are followed by something, and start where a move which isn't part of an arc ends, are replaced; the first segment   *)
(* after an arc is that move for the ones which go on with it                                                                      *)
Ends(a) == \E k \in 1..Len(All): All[k].arc /\ All[k].b = a
Run(a, b) == /\ a > 1 /\ b - a + 1 >= Min /\ b < Len(prog)
             /\ prog[a] \in {1, 2} /\ \A j \in a..b: prog[j] = prog[a]
             /\ prog[a - 1] \in {1, 2, 3} /\ (prog[a - 1] # prog[a] \/ (Ends(a - 2) /\ prog[a - 2] # prog[a])) /\ prog[b + 1] # prog[a]
Complete == \A a \in 2..Len(prog): \A b \in a..Len(prog):
              Run(a, b) /\ ~Ends(a - 1) => \E k \in 1..Len(All): All[k] = [arc |-> TRUE, a |-> a, b |-> b]
=============================================================================
