------------------------------ MODULE Duration ------------------------------
(* How long a program lasts.                                                *)
(* Lengths in um, speeds in um/s, durations in tenths of ms.  A move keeps  *)
(* the speed of the previous one, unless it doesn't go forwards (then it    *)
(* starts from rest), reaches its own by a constant acceleration, and keeps *)
(* it until its end.  Only linear moves and waits take time.                *)
EXTENDS Machine, Wide

Um(v) == RDiv(v, 100)
Speed(f) == RDiv(f, 60)

(* d / v *)
RECURSIVE Digits(_, _, _, _)
Digits(r, v, n, k) == IF k = 0 THEN n ELSE Digits((10 * r) % v, v, 10 * n + (10 * r) \div v, k - 1)
Time(d, v) == Digits(d % v, v, d \div v, 4)

(* length taken to go from a speed to another: 1 m/s^2 *)
Ramp(u, v) == LET w == WMul(Abs(u - v), u + v) IN RDiv(w[1] * 1000 + w[2] \div 1000, 2000)
(* length d at speed v, coming at speed u *)
Lasts(d, u, v) ==
  IF v = 0 THEN 0
  ELSE IF u = v THEN Time(d, v)
  ELSE LET r == Ramp(u, v) IN IF r <= d THEN Time(2 * r, u + v) + Time(d - r, v) ELSE Time(2 * d, u + v)

(* p: speed u and displacement <<x, y>> (1e-5 mm) of the last linear move *)
Rest == [u |-> 0, x |-> 0, y |-> 0]
Step(m, n) == <<n.x - m.x, n.y - m.y>>
Dot(p, m, n) == LET s == Step(m, n) IN WAdd(WMul(Um(p.x), Um(s[1])), WMul(Um(p.y), Um(s[2])))
(* the sign of the dot product cannot be told *)
Unclear(p, m, n) ==
  LET s == Step(m, n) w == Dot(p, m, n) e == Abs(Um(p.x)) + Abs(Um(p.y)) + Abs(Um(s[1])) + Abs(Um(s[2])) + 2 IN
  /\ ~((p.x = 0 \/ s[1] = 0) /\ (p.y = 0 \/ s[2] = 0))
  /\ IF p.x % 100 = 0 /\ p.y % 100 = 0 /\ s[1] % 100 = 0 /\ s[2] % 100 = 0 THEN w = WZero
     ELSE WLeq(w, WNorm(0, e)) /\ WLeq(WNeg(w), WNorm(0, e))
(* length of the move: head, else height, else filament *)
Length(m, n, l) ==
  LET s == Step(m, n) IN
  IF s # <<0, 0>> THEN VLength(<<Um(s[1]), Um(s[2])>>)
  ELSE IF Has(l.z) THEN Abs(Um(n.z - m.z)) ELSE IF Has(l.e) THEN Abs(Um(n.e - m.e)) ELSE 0
From(p, m, n) == IF WSgn(Dot(p, m, n)) > 0 THEN p.u ELSE 0

Linear(l) == l.c \in LinearMoves
(* line l takes the printer from m to n; w: wait (tenths of ms) *)
LineTime(p, m, n, l, w) ==
  IF Linear(l) THEN Lasts(Length(m, n, l), From(p, m, n), Speed(n.f))
  ELSE IF l.c = "G4" THEN w ELSE 0
After(p, m, n, l) == IF Linear(l) THEN LET s == Step(m, n) IN [u |-> Speed(n.f), x |-> s[1], y |-> s[2]] ELSE p

(* arcs, moves which aren't of a printer, and F0 have no duration here *)
Odd(p, m, n, l) ==
  \/ l.c \in {"G2", "G3"}
  \/ Linear(l) /\ LET s == Step(m, n) IN
       \/ Abs(s[1]) > 90000000 \/ Abs(s[2]) > 90000000 \/ Abs(n.z - m.z) > 90000000 \/ Abs(n.e - m.e) > 90000000
       \/ n.f < 0 \/ n.f > 24000000 \/ (n.f > 0 /\ n.f < 12000) \/ (n.f = 0 /\ p.u > 0)
       \/ Unclear(p, m, n)
=============================================================================
