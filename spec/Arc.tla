--------------------------------- MODULE Arc --------------------------------
(* What is required of an arc which replaces a run of segments, and the     *)
(* design of the optimizer as a queue of lines.  Points in um.              *)
EXTENDS Machine, Wide

MinSegments == 8
MaxRadius == 200000
Spread == 300 + 25         \* 0.1 um: distances to the centre may differ by twice the alignment error, plus the rounding of words
Um(p) == <<RDiv(p[1], 100), RDiv(p[2], 100)>>

(* s start, V vertices (the last one is the end), c centre, d: 1 counterclockwise, -1 clockwise; exact: words have no rounding *)
Small(p) == Abs(p[1]) < 450000 /\ Abs(p[2]) < 450000
(* distance of p to the centre minus the one of the start, in 0.1 um *)
Offset(p, s, c, r) == WOver(VDot(VSub(p, s), <<p[1] + s[1] - 2 * c[1], p[2] + s[2] - 2 * c[2]>>), 2 * r)
(* on which half of the turn from the start: 0 or 1 *)
Half(p, u, d) == LET b == d * WSgn(VCross(u, p)) IN IF b > 0 THEN 0 ELSE IF b < 0 THEN 1 ELSE IF WSgn(VDot(u, p)) > 0 THEN 0 ELSE 1
(* how far p is past the direction u, across it, in um (saturated) *)
Past(p, u, d, r) == d * RDiv(WOver(VCross(u, p), r), 10)
Toleranced(a) == a >= -3
RECURSIVE Turning(_, _, _, _, _, _, _)
(* vertices k.. relative to the centre; h half reached so far *)
Turning(W, u, d, r, k, prev, h) ==
  IF k > Len(W) THEN "ok"
  ELSE LET p == W[k] h2 == Half(p, u, d) near == Abs(Past(p, u, d, r)) <= 3 IN
       IF ~Toleranced(Past(p, prev, d, r)) THEN "direction"
       ELSE IF h = 1 /\ h2 = 0 /\ ~(k = Len(W) /\ near) THEN "turns"
       ELSE Turning(W, u, d, r, k + 1, p, IF h2 = 1 /\ k = 1 /\ near THEN 0 ELSE h2)
Follows(s, V, c, d, exact) ==
  LET u == VSub(s, c)
      W == [k \in 1..Len(V) |-> VSub(V[k], c)] IN
  IF ~Small(u) \/ \E k \in 1..Len(W): ~Small(W[k]) THEN "radius"
  ELSE LET r == VLength(u) IN
       IF r > MaxRadius + 40 THEN "radius"
       ELSE IF r = 0 THEN "null"
       ELSE LET D == {0} \cup {Offset(V[k], s, c, r): k \in 1..Len(V)}
                hi == CHOOSE a \in D: \A b \in D: b <= a
                lo == CHOOSE a \in D: \A b \in D: a <= b IN
            IF hi - lo > Spread THEN "alignment"
            ELSE LET q == Turning(W, u, d, r, 1, u, 0) IN
                 IF q # "ok" THEN q
                 ELSE LET e == V[Len(V)] w == W[Len(W)] IN
                      \* a full turn has to end exactly at its start, or before it
                      IF exact /\ Len(W) > 1 /\ Half(W[Len(W) - 1], u, d) = 1 /\ e # s /\ Half(w, u, d) = 0 THEN "collapse" ELSE "run"

RECURSIVE SumOf(_, _)
SumOf(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumOf(q, k - 1)
Chords(pts) == [q \in 1..Len(pts) - 1 |-> VLength(VSub(pts[q + 1], pts[q]))]
(* segments turn by the average, up to 5 degrees; in 1e-4 rad; vertices may be off the circle *)
Turn(c, r) == LET q == IF 2 * r < c THEN 20000 ELSE (c * 1000) \div (r \div 10 + 1) IN q + ((q \div 100) * (q \div 100) * (q \div 100)) \div 2400
EvenTurns(pts, r) ==
  LET C == Chords(pts)
      T == [q \in 1..Len(C) |-> Turn(C[q], r)]
      avg == SumOf(T, Len(T)) \div Len(T) IN
  \A q \in 1..Len(T): Abs(T[q] - avg) <= 873 + avg \div 50 + 100 + 300000 \div (r + 1)
(* the filament of each segment, for its length, is within 15% of the average; E in 1e-5 mm *)
EvenExtrusion(pts, E) ==
  LET C == Chords(pts)
      len == SumOf(C, Len(C))
      all == SumOf(E, Len(E)) IN
  \/ len < 500 \/ all <= 0 \/ all > 20000000
  \/ LET avg == (all * 100) \div (len \div 10) IN          \* 1e-5 mm per mm
     \A q \in 1..Len(C): C[q] < 20 \/ E[q] > 2000000 \/ E[q] < 0 \/
        LET e == (E[q] * 1000) \div C[q] IN Abs(e - avg) <= (avg \div 100) * (18 + 300 \div C[q]) + 3000 \div C[q] + 2

(* (arc / chord - 1) in 1e-6, for a chord of c um *)
Excess(chord, r) ==
  LET q == IF r = 0 THEN 2000 ELSE Min2(2000, (chord * 1000) \div r)
      q2 == q * q
      q1 == q2 \div 1000 IN
  q2 \div 24 + (q1 * q1 * 3) \div 640 + (((q1 * q1) \div 1000) * q1) \div 1434
=============================================================================
