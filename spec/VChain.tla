------------------------------- MODULE VChain -------------------------------
(* C23: validates a recorded session of edits and filters of one program.   *)
(* Texts are numbers.  s[1] is the state before, s[k + 1] the one after     *)
(* step k: y layers, l lines, x indexes, n length, w text written; a the    *)
(* numbers observed on the object, b those of its text read again.          *)
(* steps: op; edits as in Edit.tla; filters have f: text given by a fresh   *)
(* filter for the text read again; "X" is a filter with a plan, new a text, *)
(* seen the lines which it was given, in order.                             *)
EXTENDS Chain, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, v
vars == <<t, i, v>>
Tr == Traces[t]
Edits == {"append", "feed", "prepend", "rewrite"}
Tol == 2

SameList(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p): p[k] = q[k] \/ (p[k] - q[k] <= Tol /\ q[k] - p[k] <= Tol)
SameState(s) == IF ~SameList(s.a.pos, s.b.pos) THEN "positions"
                ELSE IF s.a.lay # s.b.lay THEN "layers"
                ELSE IF ~SameList(s.a.lz, s.b.lz) THEN "heights"
                ELSE IF ~SameList(s.a.sum, s.b.sum) THEN "summary"
                ELSE IF ~SameList(s.a.fin, s.b.fin) THEN "state"
                ELSE "run"
Pause(x) == x = Tr.m226
Without(s) == SelectSeq(s, LAMBDA x: ~Pause(x))

Step(p, s0, s) ==
  IF p.op \in Edits
  THEN IF s.y # Apply(s0.y, p) THEN p.op ELSE Views(s)
  ELSE IF p.op = "G"
  \* a gradient is written, the program stays as it is; pauses may be before or after a temperature
  THEN IF Len(p.g) # Len(p.f) \/ Without(p.g) # Without(p.f) THEN "gradient"
       ELSE IF s.y # s0.y THEN "gradient-program" ELSE Views(s)
  ELSE IF p.op = "P"
  THEN IF p.dirty # 1 /\ s.w # p.f THEN "pauses"
       ELSE IF Without(s.w) # Without(s0.w) THEN "paused-lines" ELSE Views(s)
  ELSE IF p.op = "X" /\ p.seen # s0.w THEN "seen"
  ELSE IF p.op = "X" /\ s.w # Filtered(p.plan, s0.w, p.new) THEN "results"
  ELSE IF s.w # p.f THEN "text"
  ELSE IF Views(s) # "run" THEN Views(s)
  ELSE SameState(s)

Init == /\ t \in 1..Len(Traces) /\ i = 0
        /\ v = IF Traces[t].err # "" THEN Traces[t].err ELSE Views(Traces[t].s[1])
Op == /\ v = "run" /\ i < Len(Tr.steps)
      /\ v' = Step(Tr.steps[i + 1], Tr.s[i + 1], Tr.s[i + 2])
      /\ i' = i + 1 /\ t' = t
Final == v = "run" /\ i = Len(Tr.steps) /\ v' = "ok" /\ UNCHANGED <<t, i>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done" /\ UNCHANGED <<t, i>>
Next == Op \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
