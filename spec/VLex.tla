-------------------------------- MODULE VLex --------------------------------
(* C02: a trace has the characters of a line (s), what the implementation   *)
(* read: cl, cn command letter and number (0 none, -1 something else), vals,*)
(* and what the harness' tokenizer read: tl, tn, tv, ts; sp: S and P read. *)
EXTENDS Lex, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, v
vars == <<t, v>>
Judge(T) ==
  LET r == Done(LexAll(Fresh, T.s, 1)) IN
  IF r.bad THEN "skip"
  ELSE IF r.cl # T.tl \/ (r.cl # 0 /\ r.cn # T.tn) THEN "TOKENIZER-command"
  ELSE IF \E k \in 1..7: r.cl = 103 /\ ~Near(r.vals[k], T.tv[k], 1) THEN "TOKENIZER-value"
  ELSE IF r.cl = 103 /\ r.seen # T.ts THEN "TOKENIZER-letters"
  ELSE IF T.err # "" THEN T.err
  ELSE IF T.cl # r.cl \/ (r.cl # 0 /\ T.cn # r.cn) THEN "command"
  ELSE IF r.cl = 103 /\ r.cn # 20 /\ \E k \in 1..7: ~Near(r.vals[k], T.vals[k], 1) THEN "value"   \* (G20: units are changing)
  ELSE IF r.cl # 0 /\ \E k \in 1..2: ~Near(r.sp[k], T.sp[k], 1) THEN "parameter"
  ELSE "ok"
Init == t \in 1..Len(Traces) /\ v = "run"
Next == /\ v = "run"
        /\ v' = Judge(Traces[t])
        /\ PrintT("V " \o ToString(t) \o " " \o v' \o " 0")
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
