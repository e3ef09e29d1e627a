-------------------------------- MODULE Num --------------------------------
(* Fixed point arithmetic.  All lengths are integers in units of 1e-5 mm    *)
(* (or 1e-5 inch for words of a G20 program), feedrates in 1e-3 mm/min.     *)
EXTENDS Integers, Sequences

NA == 1000000000                 \* "no value": a word which is absent
Has(v) == v # NA
Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Near1(a, b) == Near(a, b, 2)
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* nearest integer to n/d, d > 0 *)
RDiv(n, d) == (n + d \div 2) \div d

(* inches to mm: x 25.4 *)
ToMM(v) == (v \div 5) * 127 + RDiv((v % 5) * 127, 5)

=============================================================================
