-------------------------------- MODULE VCli --------------------------------
(* Validates runs of the tools.  A trace: r the run; fs what was observed   *)
(* after it: for in, out and std the names of the contents equal to it;     *)
(* rc 1 when the run failed.                                                *)
EXTENDS Cli, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, k, prog, v
vars == <<t, k, prog, v>>
Tr == Traces[t]
R == Tr.r
Among(x, s) == \E i \in 1..Len(s): s[i] = x
Init == /\ t \in 1..Len(Traces) /\ k = 0 /\ prog = "w" /\ v = IF Traces[t].err # "" THEN Traces[t].err ELSE "run"
Step == /\ v = "run" /\ ~Fails(R) /\ k < Len(Steps(R)) /\ k' = k + 1 /\ prog' = prog \o "." \o Steps(R)[k + 1] /\ UNCHANGED <<t, v>>
End == /\ v = "run" /\ (Fails(R) \/ k = Len(Steps(R)))
       /\ v' = IF Fails(R) # (Tr.rc = 1) THEN "status"
               ELSE IF Target(R) # "in" /\ ~Among(Before(R).in, Tr.fs.in) THEN "input"
               ELSE IF Fails(R) THEN IF ~Among("empty", Tr.fs.std) THEN "output"
                                     ELSE IF ~Among(Before(R).in, Tr.fs.in) THEN "input" ELSE "ok"
               ELSE IF ~Among(prog, Tr.fs[Target(R)]) THEN "program"
               ELSE IF Target(R) # "std" /\ ~Among("empty", Tr.fs.std) THEN "output"
               ELSE IF Target(R) # "out" /\ ~Among("none", Tr.fs.out) THEN "file" ELSE "ok"
       /\ UNCHANGED <<t, k, prog>>
Verdict == /\ v \notin {"run", "done"} /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(k))
           /\ v' = "done" /\ UNCHANGED <<t, k, prog>>
Next == Step \/ End \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
