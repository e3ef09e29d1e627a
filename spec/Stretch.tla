------------------------------ MODULE Stretch -------------------------------
(* Stretching of loops: which lines are inside of loops of which kind (for  *)
(* each dialect), and the law which moves the points of closed loops.       *)
(* Points are in um, lengths in 0.1 um, directions in 1e-4.                 *)
EXTENDS Layers, Sequences

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

None == 0  Outer == 1  Inner == 2  Extra == 3

---------------------------------------------------------------------------
(* Dialects.  mk: class of the line's text.                                 *)
(* slic3r: 1 perimeter external, 2 perimeter, 3 move to first perimeter     *)
(*   point, 4 unretract;  cura: 1 2 3 wall-outer, wall-inner, skin, 4 other *)
(*   type;  skein: 1 edge outer, 2 other edge, 3 loop, 4 end of edge or loop*)
(* state: cur perimeters being printed (slic3r), or type of section (cura), first: no external one yet *)
(*   in this layer, pend: kind of loop announced (cura), kind, start line   *)
MarksStart == [cur |-> 0, first |-> TRUE, pend |-> 0, kind |-> None, start |-> 0]

Slic3rExternal(s, i) == [s EXCEPT !.cur = 1, !.first = FALSE, !.kind = IF s.first THEN Outer ELSE Inner, !.start = i]
Slic3rExtra(s, i) == [s EXCEPT !.cur = 2, !.kind = Extra, !.start = i]
(* ahead: class (1 or 2) of the next perimeter line of the layer, or 0 *)
Slic3rMark(s, mk, i, ahead) ==
  CASE mk = 1 -> IF s.cur = 1 THEN s ELSE Slic3rExternal(s, i)
    [] mk = 2 -> IF s.cur = 2 THEN s ELSE Slic3rExtra(s, i)
    [] mk = 3 -> IF ahead = 1 THEN Slic3rExternal(s, i) ELSE IF ahead = 2 THEN Slic3rExtra(s, i) ELSE s
    [] mk = 4 -> s
    [] OTHER -> [s EXCEPT !.cur = 0, !.kind = None, !.start = 0]
(* travel: the line moves in X/Y without extruding: it goes to the next loop of the same type *)
CuraMark(s, mk, i, travel) ==
  IF mk > 0 THEN [s EXCEPT !.kind = None, !.start = 0, !.cur = mk % 4, !.pend = mk % 4]
  ELSE IF travel THEN [s EXCEPT !.kind = None, !.start = 0, !.pend = s.cur]
  ELSE IF s.pend # None THEN [s EXCEPT !.kind = s.pend, !.start = i, !.pend = None] ELSE s
SkeinMark(s, mk, i) ==
  IF mk = 4 THEN [s EXCEPT !.kind = None, !.start = 0] ELSE IF mk > 0 THEN [s EXCEPT !.kind = mk, !.start = i] ELSE s
(* new: the line starts a layer *)
Mark(d, s, new, mk, i, ahead, travel) ==
  CASE d = "slic3r" -> Slic3rMark(IF new THEN MarksStart ELSE s, mk, i, ahead)
    [] d = "cura" -> CuraMark(IF new THEN MarksStart ELSE s, mk, i, travel)
    [] d = "skein" -> SkeinMark(s, mk, i)

---------------------------------------------------------------------------
(* Geometry *)
RECURSIVE Newton(_, _)
Newton(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Newton(n, h)
Isqrt(n) == IF n = 0 THEN 0 ELSE LET g == Newton(n, IF n > 2000000 THEN 46340 ELSE IF n > 10000 THEN 1500 ELSE 101) IN
            IF n - g * g > g THEN g + 1 ELSE g                          \* nearest
Length10(dx, dy) == IF Abs(dx) < 3200 /\ Abs(dy) < 3200 THEN Isqrt(100 * (dx * dx + dy * dy)) ELSE 10 * Isqrt(dx * dx + dy * dy)
Div(a, b) == Sgn(a) * RDiv(Abs(a), b)

(* P: points, D: D[k] length from P[k] to the next one; n of them, cyclic *)
Wrap(k, n) == ((k - 1) % n) + 1
RECURSIVE Ahead(_, _, _, _), Behind(_, _, _, _)
(* from the point number k, at distance rest: <<x, y>> in 0.1 um *)
Along(p, q, len, rest) == LET f == (rest * 10000) \div len IN
  <<10 * p[1] + Div((q[1] - p[1]) * f, 1000), 10 * p[2] + Div((q[2] - p[2]) * f, 1000)>>
Ahead(P, D, k, rest) == LET n == Len(P) q == Wrap(k + 1, n) IN
  IF D[k] >= rest THEN Along(P[k], P[q], D[k], rest) ELSE Ahead(P, D, q, rest - D[k])
Behind(P, D, k, rest) == LET n == Len(P) q == Wrap(k + n - 1, n) IN
  IF D[q] >= rest THEN Along(P[k], P[q], D[q], rest) ELSE Behind(P, D, q, rest - D[q])

Toward(p, F, dist) == <<Div((10 * p[1] - F[1]) * 10000, dist), Div((10 * p[2] - F[2]) * 10000, dist)>>
(* keeps what is along the neighbour, and across it only when it is close *)
Limit(s, p, q, len, cross) ==
  IF len <= cross \div 3 THEN s
  ELSE LET nx == Div((p[1] - q[1]) * 100000, len)
           ny == Div((p[2] - q[2]) * 100000, len)
           a == Div(nx * s[1] + ny * s[2], 10000)
           b == Div(ny * s[1] - nx * s[2], 10000)
           part == IF len >= cross THEN 0 ELSE ((cross - len) * 10000) \div (cross - cross \div 3) IN
       <<Div(nx * a, 10000) + Div(Div(ny * b, 10000) * part, 10000), Div(ny * a, 10000) - Div(Div(nx * b, 10000) * part, 10000)>>
Capped(s) == LET len == Isqrt(s[1] * s[1] + s[2] * s[2]) IN IF len <= 10000 THEN s ELSE <<Div(s[1] * 10000, len), Div(s[2] * 10000, len)>>

(* relative stretch of point k: dist and cross are lengths *)
Relative(P, D, k, dist, cross) ==
  LET n == Len(P)
      p == P[k]
      a == Toward(p, Ahead(P, D, k, dist), dist)
      b == Toward(p, Behind(P, D, k, dist), dist)
      s == <<Div(8 * (a[1] + b[1]), 10), Div(8 * (a[2] + b[2]), 10)>>
      prev == Wrap(k + n - 1, n)
      s1 == Limit(s, p, P[Wrap(k + 1, n)], D[k], cross)
      s2 == Limit(s1, p, P[prev], D[prev], cross) IN
  Capped(s2)
(* displacement in um, max in 0.1 um *)
Displacement(r, max) == <<Div(r[1] * max, 100000), Div(r[2] * max, 100000)>>

Lengths(P) == [k \in 1..Len(P) |-> LET q == P[Wrap(k + 1, Len(P))] IN Length10(q[1] - P[k][1], q[2] - P[k][2])]
=============================================================================
