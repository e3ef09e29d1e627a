------------------------------ MODULE MCReader ------------------------------
(* All texts of at most N pieces over an alphabet of strings.               *)
EXTENDS Reader, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)       \* records [s |-> codes]
CONSTANT N
VARIABLES text, r, given        \* given: all characters read so far
vars == <<text, r, given>>
RECURSIVE ReadAll(_, _)
ReadAll(q, s) == IF s = <<>> THEN q ELSE ReadAll(Read(q, Head(s)), Tail(s))
Init == text = <<>> /\ r = Blank /\ given = <<>>
Step(k) == /\ Len(text) < N
           /\ text' = Append(text, k)
           /\ r' = ReadAll(r, Alphabet[k].s)
           /\ given' = given \o Alphabet[k].s
           /\ Len(text') = N => PrintT("P" \o ToJson(text'))
Next == \E k \in 1..Len(Alphabet): Step(k)
Spec == Init /\ [][Next]_vars
Ink(s) == SelectSeq(s, LAMBDA ch: ch # NL /\ ch \notin Space)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
(* nothing printable is lost, doubled or reordered *)
NothingLost == Ink(Flat(r.out) \o r.cur) = Ink(given)
(* no line written is blank or padded *)
Trimmed == \A k \in 1..Len(r.out): LET l == r.out[k] IN
             l # <<>> /\ l[1] \notin Space /\ l[Len(l)] \notin Space /\ \A j \in 1..Len(l): l[j] # NL
(* reading what has been written gives the same again *)
Again == LET again == ReadAll(Blank, Flat([k \in 1..Len(r.out) |-> Append(r.out[k], NL)])) IN again.out = r.out
(* reading by character and by line are the same *)
ByLine == LinesFrom(given, 1) = EndLine(r).out
=============================================================================
