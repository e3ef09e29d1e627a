------------------------------ MODULE Equality ------------------------------
(* When two programs are the same.  Lines are records as in Machine.tla.    *)
EXTENDS Machine

(* a program as the sequence of its meaningful lines, values in mm *)
RECURSIVE Meaning(_, _, _)
Meaning(P, k, imp) ==
  IF k > Len(P) THEN <<>>
  ELSE LET l == P[k]
           imp2 == IF l.c = "G20" THEN TRUE ELSE IF l.c = "G21" THEN FALSE ELSE imp
           u(w) == IF ~Has(w) THEN NA ELSE IF imp2 THEN ToMM(w) ELSE w
           rest == Meaning(P, k + 1, imp2)
       IN IF l.c = "" THEN rest
          ELSE <<[c |-> l.c, w |-> <<u(l.x), u(l.y), u(l.z), u(l.e), u(l.f), u(l.i), u(l.j)>>]>> \o rest

(* words: the same letters, values within 0.001 (F has 3 decimals) *)
Eps(k) == IF k = 5 THEN 1 ELSE 100
SameWord(a, b, k) == Has(a) = Has(b) /\ (Has(a) => Abs(a - b) <= Eps(k))
Fuzzy(a, b, k) == Has(a) /\ Has(b) /\ (IF k = 5 THEN Abs(a - b) \in {1, 2} ELSE Abs(a - b) \in 97..103)
SameLine(a, b) == a.c = b.c /\ \A k \in 1..7: SameWord(a.w[k], b.w[k], k)
Same(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(A): SameLine(A[k], B[k])
(* the number of lines before the first difference *)
RECURSIVE Common(_, _, _)
Common(A, B, k) == IF k <= Min2(Len(A), Len(B)) /\ SameLine(A[k], B[k]) THEN Common(A, B, k + 1) ELSE k - 1
(* what is said about it: nothing, both lines, or the first line left in A or in B *)
Kind(A, B) == LET n == Common(A, B, 1) IN
              IF n < Min2(Len(A), Len(B)) THEN 1 ELSE IF Len(A) > n THEN 2 ELSE IF Len(B) > n THEN 3 ELSE 0
(* too close to the limit to be judged *)
Limit(A, B) == \E k \in 1..Min2(Len(A), Len(B)): \E j \in 1..7: Fuzzy(A[k].w[j], B[k].w[j], j)
=============================================================================
