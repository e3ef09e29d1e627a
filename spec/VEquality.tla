----------------------------- MODULE VEquality ------------------------------
(* C07: a trace has two programs A, B and answers of the implementation:    *)
(* r = <<A = B, B = A, A # B, A.diff(B) is nothing, B.diff(A) is nothing>>. *)
(* d: what the former diff says, k kind, n lines before, a, b lines whose   *)
(* text is in it.                                                           *)
EXTENDS Equality, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, v
vars == <<t, v>>
B(b) == IF b THEN 1 ELSE 0
Judge(T) ==
  LET MA == Meaning(T.A, 1, FALSE)
      MB == Meaning(T.B, 1, FALSE)
      e == B(Same(MA, MB)) IN
  IF T.err # "" THEN T.err
  ELSE IF (\E k \in 1..Len(MA): MA[k].c = "?") \/ (\E k \in 1..Len(MB): MB[k].c = "?") \/ Limit(MA, MB) THEN "skip"
  ELSE IF T.r[1] # e THEN IF e = 1 THEN "unequal" ELSE "equal"
  ELSE IF T.r[2] # e THEN "symmetry"
  ELSE IF T.r[3] # 1 - e THEN "inequality"
  ELSE IF T.r[4] # e \/ T.r[5] # e THEN "diff"
  ELSE IF T.d.k # Kind(MA, MB) THEN "diff-kind"
  ELSE LET n == Common(MA, MB, 1)
           In(S) == \E k \in 1..Len(S): S[k] = n + 1 IN
  IF T.d.k = 1 /\ (T.d.n # n \/ ~In(T.d.a) \/ ~In(T.d.b)) THEN "diff-place"
  ELSE IF (T.d.k = 2 /\ ~In(T.d.a)) \/ (T.d.k = 3 /\ ~In(T.d.b)) THEN "diff-rest"
  ELSE "ok"
Init == t \in 1..Len(Traces) /\ v = "run"
Next == /\ v = "run"
        /\ v' = Judge(Traces[t])
        /\ PrintT("V " \o ToString(t) \o " " \o v' \o " 0")
        /\ t' = t
Spec == Init /\ [][Next]_vars
=============================================================================
