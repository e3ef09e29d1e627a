------------------------------- MODULE MCLex --------------------------------
(* All lines of N pieces over an alphabet of strings, with what must never  *)
(* matter: a is the line as given, b with the other case, c with comments   *)
(* replaced by a space, d with a space before each word.                    *)
EXTENDS Lex, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N
VARIABLES text, a, b, c, d
vars == <<text, a, b, c, d>>

Flip(ch) == IF ch \in 65..90 THEN ch + 32 ELSE IF ch \in 97..122 THEN ch - 32 ELSE ch
Comment(before, after) == before.mode \in {"paren", "rest"} \/ after.mode \in {"paren", "rest"}
StepAll(q, ch) ==
  LET a2 == Lexed(q.a, ch) IN
  [a |-> a2, b |-> Lexed(q.b, Flip(ch)),
   c |-> IF Comment(q.a, a2) THEN Lexed(q.c, 32) ELSE Lexed(q.c, ch),
   d |-> IF Letter(Lower(ch)) THEN Lexed(Lexed(q.d, 32), ch) ELSE Lexed(q.d, ch)]
RECURSIVE Feed(_, _)
Feed(q, s) == IF s = <<>> THEN q ELSE Feed(StepAll(q, Head(s)), Tail(s))

Init == text = <<>> /\ a = Fresh /\ b = Fresh /\ c = Fresh /\ d = Fresh
Step(k) == /\ Len(text) < N /\ ~a.bad
           /\ LET q == Feed([a |-> a, b |-> b, c |-> c, d |-> d], Alphabet[k].s) IN
              a' = q.a /\ b' = q.b /\ c' = q.c /\ d' = q.d
           /\ text' = Append(text, k)
           /\ ~Done(a').bad => PrintT("P" \o ToJson(text'))
Next == \E k \in 1..Len(Alphabet): Step(k)
Spec == Init /\ [][Next]_vars
Same(p, q) == p.cl = q.cl /\ p.cn = q.cn /\ p.vals = q.vals /\ p.seen = q.seen /\ p.sp = q.sp
Sound == ~Done(a).bad
CaseNeverMatters == Sound => Same(Done(a), Done(b))
CommentsNeverMatter == Sound => Same(Done(a), Done(c))
SpacesNeverMatter == Sound => Same(Done(a), Done(d))
OnlyGHasValues == Done(a).cl # 103 => Done(a).vals = NoVals
=============================================================================
