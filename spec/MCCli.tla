------------------------------- MODULE MCCli --------------------------------
(* Every run of every tool, step by step.                                   *)
EXTENDS Cli, TLC, Json, FiniteSets
VARIABLES r, pc, fs, prog, todo
vars == <<r, pc, fs, prog, todo>>
Runs == [tool: Tools, x: BOOLEAN, y: BOOLEAN, e: BOOLEAN, p: BOOLEAN, cura: BOOLEAN, refused: BOOLEAN,
        inp: {"file", "stdin", "dash"}, out: {"file", "stdout", "dash", "inplace"}, old: {"none", "old"}]
Proper(q) == /\ q.tool # "mod" => ~q.x /\ ~q.y /\ ~q.e /\ ~q.p
             /\ Plugin(q.tool) => q.inp = "file" /\ q.out = "inplace"
             /\ q.out = "inplace" => q.tool = "arcs" \/ Plugin(q.tool)
             /\ q.tool \in {"pstretch"} => q.cura
             /\ q.tool # "stretch" /\ q.tool # "pstretch" => ~q.cura
             /\ q.tool \notin {"temp", "ptemp"} => ~q.refused
             /\ q.out \in {"file", "dash"} => q.inp # "stdin"        \* the output is the second argument
             /\ q.out # "file" => q.old = "none"
Init == /\ r \in {q \in Runs: Proper(q)} /\ pc = "start" /\ fs = Before(r) /\ prog = "none" /\ todo = Steps(r)
\* the command line opens (and empties) its output file first; plugins write last
Open == /\ pc = "start" /\ pc' = "open"
        /\ fs' = IF r.out = "file" THEN [fs EXCEPT !.out = "empty"] ELSE fs
        /\ UNCHANGED <<r, prog, todo>>
Read == pc = "open" /\ pc' = "steps" /\ prog' = "w" /\ UNCHANGED <<r, fs, todo>>
Step == /\ pc = "steps" /\ todo # <<>> /\ ~Fails(r)
        /\ prog' = prog \o "." \o Head(todo) /\ todo' = Tail(todo) /\ UNCHANGED <<r, pc, fs>>
Refuse == pc = "steps" /\ Fails(r) /\ pc' = "failed" /\ UNCHANGED <<r, fs, prog, todo>>
Write == /\ pc = "steps" /\ todo = <<>> /\ pc' = "done"
         /\ fs' = [fs EXCEPT ![Target(r)] = prog] /\ UNCHANGED <<r, prog, todo>>
Out == pc \in {"done", "failed"} /\ pc' = "end" /\ PrintT("P" \o ToJson(r)) /\ UNCHANGED <<r, fs, prog, todo>>
Next == Open \/ Read \/ Step \/ Refuse \/ Write \/ Out
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InputKept == Target(r) # "in" => fs.in = Before(r).in
NeverHalfWritten == r.inp = "file" => fs.in \in {"raw", Name(Steps(r))}
OutputClean == Target(r) # "std" => fs.std = "empty"
OnePlace == pc = "done" => /\ fs[Target(r)] = Name(Steps(r))
                           /\ \A k \in {"in", "out", "std"}: k # Target(r) => fs[k] # Name(Steps(r))
RefusalKeeps == pc = "failed" => fs.in = Before(r).in /\ fs.std = "empty"
Ends == <>(pc = "end")
=============================================================================
