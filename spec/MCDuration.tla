----------------------------- MODULE MCDuration -----------------------------
(* All programs of N lines over an alphabet, timed; in parallel the same    *)
(* moves given relatively (r), and the law of a move on a grid.             *)
EXTENDS Duration, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N
VARIABLES prog, m, p, tot, last, odd, r, rp, rtot
vars == <<prog, m, p, tot, last, odd, r, rp, rtot>>
Blank == [c |-> "", x |-> NA, y |-> NA, z |-> NA, e |-> NA, f |-> NA, i |-> NA, j |-> NA,
          hx |-> FALSE, hy |-> FALSE, hz |-> FALSE, t |-> -1]
None == [d |-> 0, u |-> 0, v |-> 0, t |-> 0]
RelStart == Exec(Origin(0, 0, 0), [Blank EXCEPT !.c = "G91"], "last")
Init == /\ prog = <<>> /\ m = Origin(0, 0, 0) /\ p = Rest /\ tot = 0 /\ last = None /\ odd = FALSE
        /\ r = RelStart /\ rp = Rest /\ rtot = 0
Do(k) ==
  LET l == Alphabet[k]
      n == Exec(m, l, "last")
      t == LineTime(p, m, n, l, l.w)
      (* the same displacement, in a program which is always relative *)
      q == IF Linear(l) THEN [Blank EXCEPT !.c = l.c, !.x = n.x - m.x, !.y = n.y - m.y, !.f = n.f,
                                           !.z = IF Has(l.z) THEN n.z - m.z ELSE NA, !.e = IF Has(l.e) THEN n.e - m.e ELSE NA]
           ELSE IF l.c = "G4" THEN [Blank EXCEPT !.c = l.c] ELSE Blank
      rn == Exec(r, q, "last") IN
  /\ Len(prog) < N
  /\ prog' = Append(prog, k) /\ m' = n /\ p' = After(p, m, n, l) /\ tot' = tot + t
  /\ odd' = (odd \/ Odd(p, m, n, l))
  /\ last' = IF Linear(l) THEN [d |-> Length(m, n, l), u |-> From(p, m, n), v |-> Speed(n.f), t |-> t] ELSE None
  /\ r' = rn /\ rp' = After(rp, r, rn, q) /\ rtot' = rtot + LineTime(rp, r, rn, q, l.w)
  /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))
Next == \E k \in 1..Len(Alphabet): Do(k)
Spec == Init /\ [][Next]_vars

(* modes, origins and homing don't change how long the moves last *)
ModesDontCount == odd \/ tot = rtot
(* not faster than the fastest of both speeds, nor than half of the average *)
Bounded == odd \/ last.v = 0 \/
  LET hi == Max2(last.u, last.v) IN
  /\ last.t + 2 >= Time(last.d, hi)
  /\ last.t <= 2 * Time(last.d, hi) + 4 \/ last.u > last.v
  /\ (last.u > last.v => last.t <= Time(last.d, last.v) + 4)
(* nothing lasts while no feedrate was given, but waits *)
NoFeedrate == odd \/ (m.f = 0 /\ (\A k \in 1..Len(prog): Alphabet[prog[k]].c # "G4")) => tot = 0

(* the law itself *)
Ds == {0, 1, 40, 333, 1000, 5000, 60000, 300000}
Vs == {200, 5000, 20000, 33333, 130000, 400000}
Law == \A d \in Ds, u \in Vs \cup {0}, v \in Vs:
         /\ \A g \in Ds: g >= d => Lasts(g, u, v) + 1 >= Lasts(d, u, v)                       \* further takes longer
         /\ \A w \in Vs: w <= v /\ w >= u => Lasts(d, u, w) + 3 >= Lasts(d, u, v)            \* slower takes longer
         /\ \A g \in Ds: d >= Ramp(u, v) => Near(Lasts(d + g, u, v), Lasts(d, u, v) + Lasts(g, v, v), 3)   \* a move in two parts
         /\ d = 0 => Lasts(d, u, v) <= 1
ASSUME Law
=============================================================================
