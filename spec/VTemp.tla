------------------------------- MODULE VTemp --------------------------------
(* Validates programs written with a temperature gradient.                  *)
(* A trace: L lines; lay layer of each line (as cut by the implementation); *)
(* g gradient; id text numbers of the lines; O <<text number, T>> written   *)
(* lines, T: 0 blank, temperature (tenths) of an M104 S, -1 other;          *)
(* res: "ok" or "refused" or an error; kept 1 when a refusal kept the file. *)
(* WHAT: C19 or C20.                                                        *)
EXTENDS Temp, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
What == IOEnv.WHAT
VARIABLES t, i, c, k, j, last, drift, v
vars == <<t, i, c, k, j, last, drift, v>>
\* i lines cut, then k written lines consumed, j lines found among them, last: temperature in force
Tr == Traces[t]
G == Tr.g
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ c = CutStart(<<0, 0, 0>>) /\ k = 0 /\ j = 0 /\ last = 0 /\ drift = FALSE
        /\ v = IF Traces[t].res \notin {"ok", "refused"} THEN Traces[t].res
               ELSE IF What = "C20" THEN "cut"
               ELSE IF Traces[t].res = "refused" THEN IF Traces[t].kept = 1 THEN "ok" ELSE "touched" ELSE "run"

(* C20 *)
Cut == /\ v = "cut" /\ i < Len(Tr.L)
       /\ i' = i + 1 /\ c' = CutLine(c, Tr.L[i + 1], i + 1)
       \* the gradient looks at the height of the machine
       /\ drift' = (drift \/ (c'.y[Len(c'.y)].from = i + 1 /\ Has(c'.s.z) /\ c'.s.z # c'.s.m.z))
       /\ v' = IF c'.s.odd \/ drift' \/ (Has(c'.s.z) /\ c'.s.z % 100 # 0) THEN "skip" ELSE v
       /\ UNCHANGED <<t, k, j, last>>
Grade == /\ v = "cut" /\ i = Len(Tr.L)
         /\ v' = IF Refused(c, G) # (Tr.res = "refused") THEN "refusal" ELSE IF Tr.res = "refused" THEN "ok" ELSE "run"
         /\ UNCHANGED <<t, i, c, k, j, last, drift>>
Section == CHOOSE s \in 1..Len(c.y): c.y[s].from = j + 1
Opens == IF What = "C20" THEN \E s \in 1..Len(c.y): c.y[s].from = j + 1
         ELSE IF j = 0 THEN TRUE ELSE Tr.lay[j + 1] # Tr.lay[j]
Ok(T) == Valid(G, Lowest(c, G), Highest(c), c.y[Section].z, T)

Line == /\ v = "run" /\ k < Len(Tr.O) /\ j < Len(Tr.L)
        /\ Tr.O[k + 1][1] = Tr.id[j + 1]
        /\ k' = k + 1 /\ j' = j + 1
        /\ v' = IF What = "C20" /\ Opens /\ Graded(c, G, Section) /\ ~Ok(last) THEN "temperature" ELSE "run"
        /\ UNCHANGED <<t, i, c, last, drift>>
(* an added line, then the first line of the layer *)
Added == /\ v = "run" /\ k < Len(Tr.O) - 1 /\ j < Len(Tr.L) /\ Opens
         /\ Tr.O[k + 1][2] >= 0 /\ Tr.O[k + 2][1] = Tr.id[j + 1]
         /\ k' = k + 2 /\ j' = j + 1
         /\ last' = IF Tr.O[k + 1][2] > 0 THEN Tr.O[k + 1][2] ELSE last
         /\ v' = IF Tr.O[k + 1][2] > 0 /\ ~Safe(Tr.O[k + 1][2]) THEN "unsafe"
                 ELSE IF What = "C19" THEN "run"
                 ELSE IF Tr.O[k + 1][2] = 0 THEN "blank"
                 ELSE IF ~Graded(c, G, Section) THEN "ungraded"
                 ELSE IF ~Ok(Tr.O[k + 1][2]) THEN "temperature"
                 ELSE IF last = Tr.O[k + 1][2] THEN "repeated" ELSE "run"
         /\ UNCHANGED <<t, i, c, drift>>
Stuck == /\ v = "run" /\ ~(ENABLED Line \/ ENABLED Added)
         /\ v' = IF k = Len(Tr.O) /\ j = Len(Tr.L) THEN "ok" ELSE "lines"
         /\ UNCHANGED <<t, i, c, k, j, last, drift>>
Verdict == /\ v \notin {"run", "cut", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(j))
           /\ v' = "done" /\ UNCHANGED <<t, i, c, k, j, last, drift>>
Next == Cut \/ Grade \/ Line \/ Added \/ Stuck \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
