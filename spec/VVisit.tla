------------------------------- MODULE VVisit -------------------------------
(* C11, C12: validates a visit, or a paused program.                        *)
(* A trace: L lines, h home, id text numbers of the lines;                  *)
(* kind "visit": E events <<what, number, index, line, printed, which>>     *)
(*   what: 0 start of a layer, 1 a line (which: its place in the program),  *)
(*   2 end; which: number of lines of the layer, empty ones may exist but   *)
(*   have nothing to number; lines count from 0                                              *)
(* kind "pause": P requested layers, M text number of the pause command     *)
(* for both: O text numbers of the lines written after the visit; B: layer  *)
(*   indexes where the visitor prepends lines, Q: text numbers of these     *)
EXTENDS Visit, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, c, j, k, n, x, v
vars == <<t, i, c, j, k, n, x, v>>
\* x: empty layers met
\* i lines cut; then j: current layer, k: events (or written lines) consumed, n: lines visited
Tr == Traces[t]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ c = CutStart(Traces[t].h) /\ j = 0 /\ k = 0 /\ n = 0 /\ x = 0
        /\ v = IF Traces[t].err # "" THEN Traces[t].err ELSE "run"
Cut == /\ v = "run" /\ i < Len(Tr.L)
       /\ i' = i + 1 /\ c' = CutLine(c, Tr.L[i + 1], i + 1)
       /\ v' = IF c'.s.odd THEN "skip" ELSE v
       /\ UNCHANGED <<t, j, k, n, x>>
Done == i = Len(Tr.L)

Inside(l) == j > 0 /\ l >= c.y[j].from /\ l <= c.y[j].to
Event ==
  /\ v = "run" /\ Done /\ Tr.kind = "visit" /\ k < Len(Tr.E)
  /\ LET e == Tr.E[k + 1]
         open == k > 0 /\ Tr.E[k][1] # 2
         empty == (e[1] = 0 /\ e[6] = 0) \/ (e[1] = 2 /\ k > 0 /\ Tr.E[k][1] = 0 /\ Tr.E[k][6] = 0)
         num(y) == IF IsPrinted(c, y) THEN Number(c, y) ELSE y - 1 + x IN
     /\ v' = IF empty THEN IF open # (e[1] = 2) THEN "start" ELSE IF e[3] # j + x THEN "index" ELSE "run"
             ELSE IF e[1] = 0 THEN
               IF open \/ j = Len(c.y) THEN "start"
               ELSE IF e[3] # j + x THEN "index"
               ELSE IF e[4] # n THEN "number"
               ELSE IF (e[5] = 1) # IsPrinted(c, j + 1) THEN "printed"
               ELSE IF e[2] # num(j + 1) THEN "rank" ELSE "run"
             ELSE IF ~open \/ j = 0 THEN "outside"
             ELSE IF e[3] # j - 1 + x THEN "index"
             ELSE IF (e[5] = 1) # IsPrinted(c, j) THEN "printed"
             ELSE IF e[2] # num(j) THEN "rank"
             ELSE IF e[1] = 1 THEN IF e[6] # n \/ ~Inside(n + 1) THEN "line" ELSE IF e[4] # n THEN "number" ELSE "run"
             ELSE IF n # c.y[j].to THEN "end" ELSE IF e[4] # n - 1 THEN "number" ELSE "run"
     /\ j' = IF e[1] = 0 /\ ~empty THEN j + 1 ELSE j
     /\ x' = IF e[1] = 2 /\ empty THEN x + 1 ELSE x
     /\ n' = IF e[1] = 1 THEN n + 1 ELSE n
  /\ k' = k + 1
  /\ UNCHANGED <<t, i, c>>
Visited == /\ v = "run" /\ Done /\ Tr.kind = "visit" /\ k = Len(Tr.E)
           /\ v' = IF n # Len(Tr.L) \/ (Len(Tr.L) > 0 /\ j # Len(c.y)) THEN "missing" ELSE "write"
           /\ j' = 0 /\ k' = 0 /\ UNCHANGED <<t, i, c, n, x>>

(* what has to be written: layer by layer *)
Before(y) == IF Tr.kind = "pause" THEN IF PausesAt(c, y, {Tr.P[q]: q \in 1..Len(Tr.P)}) THEN <<Tr.M>> ELSE <<>>
             ELSE IF \E q \in 1..Len(Tr.B): Tr.B[q] = y - 1 THEN Tr.Q ELSE <<>>
Section(y) == Before(y) \o SubSeq(Tr.id, c.y[y].from, c.y[y].to)
WritePause == v = "run" /\ Done /\ Tr.kind = "pause" /\ v' = "write" /\ UNCHANGED <<t, i, c, j, k, n, x>>
Write == /\ v = "write" /\ j < Len(c.y)
         /\ LET q == Section(j + 1) IN
            /\ v' = IF SubSeq(Tr.O, k + 1, Min2(k + Len(q), Len(Tr.O))) = q THEN v ELSE "written"
            /\ k' = k + Len(q)
         /\ j' = j + 1 /\ UNCHANGED <<t, i, c, n, x>>
Final == /\ v = "write" /\ j = Len(c.y)
         /\ v' = IF k = Len(Tr.O) THEN "ok" ELSE "longer"
         /\ UNCHANGED <<t, i, c, j, k, n, x>>
Verdict == /\ v \notin {"run", "write", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(IF Done THEN k ELSE i))
           /\ v' = "done" /\ UNCHANGED <<t, i, c, j, k, n, x>>
Next == Cut \/ Event \/ Visited \/ WritePause \/ Write \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
