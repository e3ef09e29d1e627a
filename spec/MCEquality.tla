----------------------------- MODULE MCEquality -----------------------------
(* All pairs of programs of at most N lines, compared by a machine which    *)
(* advances in both, skipping comments, and stops at the first difference.  *)
EXTENDS Equality, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N
Programs == UNION {[1..n -> 1..Len(Alphabet)]: n \in 0..N}
VARIABLES A, B, i, j, st
vars == <<A, B, i, j, st>>
Lines(P) == [k \in 1..Len(P) |-> Alphabet[P[k]]]
MA == Meaning(Lines(A), 1, FALSE)
MB == Meaning(Lines(B), 1, FALSE)
Comment(P, k) == Alphabet[P[k]].c = ""
Init == A \in Programs /\ B \in Programs /\ i = 1 /\ j = 1 /\ st = "run"
SkipA == st = "run" /\ i <= Len(A) /\ Comment(A, i) /\ i' = i + 1 /\ UNCHANGED <<A, B, j, st>>
SkipB == st = "run" /\ ~(i <= Len(A) /\ Comment(A, i)) /\ j <= Len(B) /\ Comment(B, j) /\ j' = j + 1 /\ UNCHANGED <<A, B, i, st>>
AtLine(P, k) == IF k > Len(P) THEN TRUE ELSE ~Comment(P, k)
MeaningUpto(P, k) == Len(Meaning(SubSeq(Lines(P), 1, k), 1, FALSE))
Compare == /\ st = "run" /\ AtLine(A, i) /\ AtLine(B, j)
           /\ \/ i > Len(A) /\ j > Len(B) /\ st' = "equal" /\ UNCHANGED <<i, j>>
              \/ (i > Len(A)) # (j > Len(B)) /\ st' = "different" /\ UNCHANGED <<i, j>>
              \/ /\ i <= Len(A) /\ j <= Len(B)
                 /\ IF SameLine(MA[MeaningUpto(A, i)], MB[MeaningUpto(B, j)])
                    THEN i' = i + 1 /\ j' = j + 1 /\ st' = st ELSE st' = "different" /\ UNCHANGED <<i, j>>
           /\ UNCHANGED <<A, B>>
Report == st \in {"equal", "different"} /\ PrintT("P" \o ToJson(<<A, B>>)) /\ st' = "done " \o st /\ UNCHANGED <<A, B, i, j>>
Next == SkipA \/ SkipB \/ Compare \/ Report
Spec == Init /\ [][Next]_vars
(* the machine decides the relation *)
Decides == /\ st = "equal" => Same(MA, MB)
           /\ st = "different" => ~Same(MA, MB)
(* the place of a difference is the same from either side, and everything before it is the same *)
Swap(k) == IF k = 2 THEN 3 ELSE IF k = 3 THEN 2 ELSE k
Place == LET n == Common(MA, MB, 1) IN
         /\ n = Common(MB, MA, 1) /\ Kind(MA, MB) = Swap(Kind(MB, MA))
         /\ Same(SubSeq(MA, 1, n), SubSeq(MB, 1, n)) /\ (Kind(MA, MB) = 0) = Same(MA, MB)
         /\ st = "different" => n = MeaningUpto(A, i - 1) /\ n = MeaningUpto(B, j - 1)
Symmetric == Same(MA, MB) = Same(MB, MA)
Reflexive == Same(MA, MA)
=============================================================================
