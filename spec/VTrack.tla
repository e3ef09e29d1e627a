------------------------------- MODULE VTrack -------------------------------
(* C03: validates recorded positions of the implementation against Machine. *)
(* A trace: L lines, o observations (x y z e f extruding hascommand, is it a *)
(* move, its modes for XYZ and E, its tool), h home                         *)
(* position, fin final observations, err, n number of lines observed.       *)
EXTENDS Machine, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, m, v

Tr == Traces[t]

Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ m = Origin(Traces[t].h[1], Traces[t].h[2], Traces[t].h[3])
        /\ v = IF Traces[t].err # "" THEN Traces[t].err
               ELSE IF Len(Traces[t].o) # Len(Traces[t].L) THEN "count" ELSE "run"

(* tolerance: inch words are rounded to 1e-5 mm in the specification *)
Tol == 40

B(b) == IF b THEN 1 ELSE 0
LineVerdict(n, l, o) ==
  IF l.c = "" THEN IF o[7] = 1 THEN "command" ELSE "run"
  ELSE IF l.c = "?" THEN "run"
  ELSE IF o[7] = 0 THEN "nocommand"
  ELSE IF ~Near(n.x, o[1], Tol) THEN "x"
  ELSE IF ~Near(n.y, o[2], Tol) THEN "y"
  ELSE IF ~Near(n.z, o[3], Tol) THEN "z"
  ELSE IF ~Near(n.e, o[4], Tol) THEN "e"
  ELSE IF ~Near(n.f, o[5], Tol) THEN "f"
  ELSE IF (IF n.ext THEN 1 ELSE 0) # o[6] THEN "extruding"
  ELSE IF B(IsMove(l)) # o[8] THEN "is-move"
  ELSE IF IsMove(l) /\ o[9] # B(n.rel) THEN "relative"
  ELSE IF IsMove(l) /\ o[10] # B(n.relE) THEN "relative-e"
  ELSE IF IsMove(l) /\ o[11] # n.tool THEN "tool"
  ELSE "run"

FinalVerdict(n, f) ==
  IF ~(Near(n.x, f[1], Tol) /\ Near(n.y, f[2], Tol) /\ Near(n.z, f[3], Tol) /\ Near(n.e, f[4], Tol)) THEN "final-position"
  ELSE IF ~Near(n.f, f[5], Tol) THEN "final-feedrate"
  ELSE IF ~(Near(n.x - n.ox, f[6], Tol) /\ Near(n.y - n.oy, f[7], Tol) /\ Near(n.z - n.oz, f[8], Tol)
            /\ Near(n.e - n.oe, f[9], Tol)) THEN "final-origin"
  ELSE IF B(n.imp) # f[10] THEN "final-units"
  ELSE IF B(n.rel) # f[11] THEN "final-positioning"
  ELSE IF B(n.relE) # f[12] THEN "final-extrusion-mode"
  ELSE IF n.tool # f[13] THEN "final-tool"
  ELSE IF ~(Near(n.tot, f[14], Tol) /\ Near(n.maxE, f[15], Tol)) THEN "final-filament"
  ELSE "ok"

Report(verdict, k) == PrintT("V " \o ToString(t) \o " " \o verdict \o " " \o ToString(k))

Line == /\ v = "run"
        /\ i < Len(Tr.L)
        /\ i' = i + 1
        /\ m' = Exec(m, Tr.L[i + 1], "last")
        /\ v' = LineVerdict(m', Tr.L[i + 1], Tr.o[i + 1])
        /\ t' = t

Final == /\ v = "run"
         /\ i = Len(Tr.L)
         /\ v' = FinalVerdict(m, Tr.fin)
         /\ UNCHANGED <<t, i, m>>

Verdict == /\ v \notin {"run", "done"}
           /\ Report(v, i)
           /\ v' = "done"
           /\ UNCHANGED <<t, i, m>>

Next == Line \/ Final \/ Verdict
Spec == Init /\ [][Next]_<<t, i, m, v>>
=============================================================================
