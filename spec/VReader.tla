------------------------------ MODULE VReader -------------------------------
(* C01: a trace has the text given (s) and the lines written (o).           *)
EXTENDS Reader, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, n, v        \* i: characters read, n: lines written
vars == <<t, i, n, v>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ i = 0 /\ n = 0 /\ v = IF Traces[t].err # "" THEN Traces[t].err ELSE "run"
(* one line of text at a time *)
Line == /\ v = "run" /\ i < Len(Tr.s)
        /\ LET s == Tr.s
               e == NextNL(s, i + 1)
               l == Trim(s, i + 1, e - 1) IN
           /\ i' = e
           /\ n' = IF l = <<>> THEN n ELSE n + 1
           /\ v' = IF n' > Len(Tr.o) THEN "lost" ELSE IF n' > n /\ Tr.o[n'] # l THEN "changed" ELSE "run"
        /\ t' = t
Final == /\ v = "run" /\ i >= Len(Tr.s)
         /\ v' = IF Len(Tr.o) # n THEN "added" ELSE "ok"
         /\ UNCHANGED <<t, i, n>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(n))
           /\ v' = "done" /\ UNCHANGED <<t, i, n>>
Next == Line \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
