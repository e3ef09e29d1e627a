-------------------------------- MODULE Wide --------------------------------
(* TLC computes on 32 bits.  Wide integers are <<hi, lo>>, worth            *)
(* hi * 10^6 + lo with 0 <= lo < 10^6.                                      *)
EXTENDS Num

WNorm(hi, lo) == <<hi + lo \div 1000000, lo % 1000000>>
WZero == <<0, 0>>
(* product of two integers below 10^6 in absolute value *)
WMul(a, b) ==
  LET a1 == a \div 1000  a0 == a % 1000
      b1 == b \div 1000  b0 == b % 1000
      mid == a1 * b0 + a0 * b1 IN
  WNorm(a1 * b1 + mid \div 1000, (mid % 1000) * 1000 + a0 * b0)
WAdd(u, w) == WNorm(u[1] + w[1], u[2] + w[2])
WSub(u, w) == WNorm(u[1] - w[1], u[2] - w[2])
WLess(u, w) == u[1] < w[1] \/ (u[1] = w[1] /\ u[2] < w[2])
WLeq(u, w) == ~WLess(w, u)
WNeg(w) == WSub(WZero, w)
WSgn(w) == IF w[1] < 0 THEN -1 ELSE IF w = WZero THEN 0 ELSE 1
(* nearest integer to 10 w / d, saturated (d > 0) *)
WOver(w, d) == IF w[1] > 100 THEN 100000000 ELSE IF w[1] < -100 THEN -100000000 ELSE RDiv(10 * (w[1] * 1000000 + w[2]), d)

(* vectors <<x, y>> *)
VSub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
VDot(p, q) == WAdd(WMul(p[1], q[1]), WMul(p[2], q[2]))
VCross(p, q) == WSub(WMul(p[1], q[2]), WMul(p[2], q[1]))

RECURSIVE NewtonW(_, _)
NewtonW(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE NewtonW(n, h)
SqrtI(n) == IF n = 0 THEN 0 ELSE NewtonW(n, IF n > 2000000 THEN 46340 ELSE IF n > 10000 THEN 1500 ELSE 101)
(* length of a vector below 10^6, within a few parts in 10^4 *)
VLength(p) == LET m == Max2(Abs(p[1]), Abs(p[2])) IN
  IF m < 300 THEN RDiv(SqrtI(10000 * (p[1] * p[1] + p[2] * p[2])), 100)
  ELSE IF m < 30000 THEN SqrtI(p[1] * p[1] + p[2] * p[2])
  ELSE LET k == m \div 30000 + 1 IN k * SqrtI((p[1] \div k) * (p[1] \div k) + (p[2] \div k) * (p[2] \div k))
=============================================================================
