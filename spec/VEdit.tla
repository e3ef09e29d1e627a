------------------------------- MODULE VEdit --------------------------------
(* C05: a trace has ops and the states observed before (s[1]) and after each*)
(* operation: y layers, l lines, x indexes (pairs), n length, w text written*)
EXTENDS Edit, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, layers, v
vars == <<t, i, layers, v>>
Tr == Traces[t]

InStep(s) == IF s.l # Lines(s.y) THEN "lines"
             ELSE IF s.n # Len(s.l) THEN "length"
             ELSE IF s.x # Index(s.y) THEN "indexes"
             ELSE IF s.w # s.l THEN "written"
             ELSE "run"

Init == /\ t \in 1..Len(Traces) /\ i = 0
        /\ IF Traces[t].err # "" THEN v = Traces[t].err /\ layers = <<>>
           ELSE v = InStep(Traces[t].s[1]) /\ layers = Traces[t].s[1].y
Op == /\ v = "run" /\ i < Len(Tr.ops)
      /\ LET o == Tr.ops[i + 1]
             s == Tr.s[i + 2]
             y == Apply(layers, o) IN
         IF ~Enabled(layers, o) THEN v' = "skip" /\ layers' = layers
         ELSE /\ layers' = y
              /\ v' = IF s.y # y THEN o.op ELSE InStep(s)
      /\ i' = i + 1 /\ t' = t
Final == v = "run" /\ i = Len(Tr.ops) /\ v' = "ok" /\ UNCHANGED <<t, i, layers>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done" /\ UNCHANGED <<t, i, layers>>
Next == Op \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
