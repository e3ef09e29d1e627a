----------------------------- MODULE VDuration ------------------------------
(* C22: validates durations.  A trace: L lines; h home; w wait of each line *)
(* (tenths of ms); lay layer of each line, as cut by the implementation; d  *)
(* duration of each layer (tenths of ms); total in s; n: layers estimated   *)
(* along, and counted.                                                      *)
EXTENDS Duration, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, m, p, acc, tot, v
vars == <<t, i, m, p, acc, tot, v>>
Tr == Traces[t]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ p = Rest /\ acc = 0 /\ tot = 0
        /\ m = Origin(Traces[t].h[1], Traces[t].h[2], Traces[t].h[3])
        /\ v = IF Traces[t].err # "" THEN Traces[t].err
               ELSE IF Len(Traces[t].lay) # Len(Traces[t].L) THEN "lines" ELSE "run"
(* a few units for each line, and 1 for 2000 *)
Close(a, b) == Near(a, b, 10 + 2 * Len(Tr.L) + Max2(a, 0) \div 2000)
Line == /\ v = "run" /\ i < Len(Tr.L)
        /\ LET l == Tr.L[i + 1] n == Exec(m, l, "last")
               o == Odd(p, m, n, l)
               q == IF o THEN 0 ELSE LineTime(p, m, n, l, Tr.w[i + 1])
               cut == i > 0 /\ Tr.lay[i + 1] # Tr.lay[i] IN
           /\ m' = n /\ p' = After(p, m, n, l)
           /\ acc' = IF cut THEN q ELSE acc + q
           /\ tot' = tot + q
           /\ v' = IF cut /\ Tr.lay[i] <= Len(Tr.d) /\ ~Close(acc, Tr.d[Tr.lay[i]]) THEN "layer"
                   ELSE IF l.c = "?" \/ tot > 900000000 THEN "skip-text"
                   ELSE IF o THEN IF l.c \in {"G2", "G3"} THEN "skip-arc" ELSE IF Unclear(p, m, n) THEN "skip-turn" ELSE "skip-odd" ELSE "run"
        /\ i' = i + 1 /\ t' = t
(* seconds, rounded down *)
Slack == 10 + 2 * Len(Tr.L) + tot \div 2000
Final == /\ v = "run" /\ i = Len(Tr.L)
         /\ v' = IF Len(Tr.d) > 0 /\ i > 0 /\ ~Close(acc, Tr.d[Tr.lay[i]]) THEN "layer"
                 ELSE IF Tr.total < (tot - Slack) \div 10000 \/ Tr.total > (tot + Slack) \div 10000 THEN "total"
                 ELSE IF Tr.n[1] # Tr.n[2] THEN "count" ELSE "ok"
         /\ UNCHANGED <<t, i, m, p, acc, tot>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done" /\ UNCHANGED <<t, i, m, p, acc, tot>>
Next == Line \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
