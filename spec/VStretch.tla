------------------------------ MODULE VStretch ------------------------------
(* C13, C14, C15: validates stretched programs.                             *)
(* A trace: d dialect; L lines (with mk, ow, see Stretch), O lines written; *)
(* w edge width (um); R ratios of the kinds (1e-4); sd, cl distances over   *)
(* edge width (1e-3)                                                        *)
EXTENDS Stretch, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, ph, s, g, new, loc, kd, st, rel, lp, v
vars == <<t, i, ph, s, g, new, loc, kd, st, rel, lp, v>>
\* ph 1 executes the program: loc <<x, y>> reached (um), new start of layers, rel relative lines; imp in loc[3]
\* ph 2 finds the loops: kd kinds, st start lines; ph 3 compares; lp current closed loop
Tr == Traces[t]
NoLoop == [from |-> 0, P |-> <<>>, D |-> <<>>, at |-> <<>>]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ ph = 1 /\ s = Start(<<0, 0, 0>>) /\ g = MarksStart
        /\ new = <<>> /\ loc = <<>> /\ kd = <<>> /\ st = <<>> /\ rel = <<>> /\ lp = NoLoop
        /\ v = IF Traces[t].err # "" THEN Traces[t].err ELSE IF Len(Traces[t].L) # Len(Traces[t].O) THEN "lines" ELSE "run"
N == Len(Tr.L)
Run == /\ v = "run" /\ ph = 1 /\ i < N
       /\ LET l == Tr.L[i + 1] s2 == Advance(s, l) IN
          /\ s' = s2
          /\ loc' = Append(loc, <<s2.m.x - s2.m.ox, s2.m.y - s2.m.oy, s2.m.imp>>)
          /\ new' = Append(new, s2.new \/ i = 0)
          /\ rel' = Append(rel, s.m.rel)
          /\ v' = IF s2.odd THEN "skip" ELSE v
       /\ i' = i + 1 /\ UNCHANGED <<t, ph, g, kd, st, lp>>
Turn == /\ v = "run" /\ ph < 3 /\ i = N /\ ph' = ph + 1 /\ i' = 0 /\ UNCHANGED <<t, s, g, new, loc, kd, st, rel, lp, v>>

NextPerimeter(j) == LET after == {q \in (j + 1)..N: Tr.L[q].mk \in {1, 2} /\ \A p \in (j + 1)..q: ~new[p]} IN
                    IF after = {} THEN 0 ELSE Tr.L[SetMin(after)].mk
Loops == /\ v = "run" /\ ph = 2 /\ i < N
         /\ LET l == Tr.L[i + 1]
                g2 == Mark(Tr.d, g, new[i + 1], l.mk, i + 1, IF Tr.d = "slic3r" /\ l.mk = 3 THEN NextPerimeter(i + 1) ELSE 0,
                           l.c \in LinearMoves /\ HasXY(l) /\ ~Has(l.e)) IN
            /\ g' = g2 /\ kd' = Append(kd, g2.kind) /\ st' = Append(st, g2.start)
         /\ i' = i + 1 /\ UNCHANGED <<t, ph, s, new, loc, rel, lp, v>>

Dist == (Tr.w * Tr.sd) \div 100                        \* 0.1 um
Cross == (Tr.w * Tr.cl) \div 100
Max10(k) == Div(Tr.w * Tr.R[k], 1000)
IsXY(j) == Tr.L[j].c \in LinearMoves /\ HasXY(Tr.L[j])
Um(p) == <<RDiv(p[1], 100), RDiv(p[2], 100)>>
Um0 == <<0, 0, FALSE>>
LocBefore(j) == IF j = 1 THEN Um0 ELSE loc[j - 1]
SamePoint(p, q) == Near(p[1], q[1], 60) /\ Near(p[2], q[2], 60)
RECURSIVE Points(_, _)
Points(a, b) == IF a > b THEN <<>> ELSE IF IsXY(a) THEN <<a>> \o Points(a + 1, b) ELSE Points(a + 1, b)
LastOf(a) == SetMax({q \in a..Min2(N, a + 300): st[q] = a})
(* the loop starting at line a, when it is closed and well formed *)
Loop(a) ==
  LET b == LastOf(a)
      at0 == Points(a, b)
      n0 == Len(at0)
      at == IF Tr.d = "cura" THEN at0 ELSE SubSeq(at0, 1, n0 - 1)
      P == [k \in 1..Len(at) |-> Um(loc[at[k]])]
      inside(C) == {q \in a..b: Tr.L[q].c \in C}
      plain == /\ n0 >= 4
               /\ inside({"G2", "G3", "G20", "G21", "G28", "G90", "G91", "G92", "?"}) = {}
               /\ \A q \in a..b: ~rel[q] /\ (q > at0[1] => ~new[q])
      shape == CASE Tr.d = "slic3r" -> /\ Tr.L[a].mk = 3 /\ at0[1] = a /\ ~Has(Tr.L[a].e)
                                       /\ \A q \in (a + 1)..b: Tr.L[q].c \in LinearMoves => Has(Tr.L[q].e) /\ (IsXY(q) => Tr.L[q].mk \in {1, 2})
                                       /\ at0[n0] = b /\ SamePoint(loc[at0[1]], loc[at0[n0]])
                                       \* another loop which begins without a straight move or filament doesn't end this one well
                                       /\ (b < N /\ Tr.L[b + 1].mk \in {1, 2}) => (Has(Tr.L[b + 1].e) \/ Tr.L[b + 1].c \in LinearMoves)
                 [] Tr.d = "cura" -> /\ (\A q \in inside(LinearMoves): IsXY(q) => Has(Tr.L[q].e))
                                     /\ SamePoint(LocBefore(a), loc[at0[n0]])
                 [] Tr.d = "skein" -> /\ Cardinality(inside({"M101"})) = 1 /\ Cardinality(inside({"M103"})) = 1
                                      /\ LET on == SetMin(inside({"M101"})) off == SetMin(inside({"M103"})) IN
                                         /\ at0[1] < on /\ on < at0[2] /\ off = at0[n0] + 1 /\ inside(LinearMoves) = {q \in a..b: IsXY(q)}
                                      /\ LET q == {m \in Max2(1, a - 50)..(at0[1] - 1): Tr.L[m].c = "M103" \/ IsXY(m)} IN
                                         q # {} => Tr.L[SetMax(q)].c = "M103" \/ \E m \in (SetMax(q) + 1)..at0[1]: new[m]
                                      /\ SamePoint(loc[at0[1]], loc[at0[n0]])
      near == \A k \in 1..Len(P): Abs(P[k][1] - P[1][1]) <= 10400 /\ Abs(P[k][2] - P[1][2]) <= 10400
      bad == [from |-> a, P |-> <<>>, D |-> <<>>, at |-> <<>>] IN
  IF ~plain THEN bad ELSE IF ~shape \/ ~near THEN bad
  ELSE LET D == Lengths(P) IN
       IF (\E k \in 1..Len(P): D[k] < 10) \/ SumSeq(D) < Dist + 100 THEN bad
       ELSE [from |-> a, P |-> P, D |-> D, at |-> at0]

SameWord(a, b, tol) == Has(a) = Has(b) /\ (Has(a) => Near(a, b, tol))
Unchanged(l, o) == /\ o.c = l.c /\ o.t = l.t /\ o.x = l.x /\ o.y = l.y /\ o.z = l.z /\ o.e = l.e /\ o.f = l.f /\ o.i = l.i /\ o.j = l.j
                   /\ o.ow = l.ow
Mm(imp, w) == IF imp THEN ToMM(w) ELSE w
(* where o goes, when l goes to q *)
Goal(l, o, q) == <<IF Has(o.x) THEN Mm(q[3], o.x) ELSE q[1], IF Has(o.y) THEN Mm(q[3], o.y) ELSE q[2]>>
(* TLC integers have 32 bits *)
Scaled(e, len) == IF Abs(e) < 500000 /\ len < 4000 THEN Div(e * len, 1000) ELSE Div((e \div 10) * len, 100)
Judge(l, o, j, lp2) ==
  LET q == loc[j]
      k == kd[j] IN
  IF k = None \/ ~IsXY(j) \/ rel[j] THEN IF Unchanged(l, o) THEN "run" ELSE "changed"
  ELSE IF Max10(k) = 0 /\ Unchanged(l, o) THEN "run"
  ELSE IF o.c # l.c THEN "command"
  ELSE IF ~SameWord(l.z, o.z, 52) THEN "z"
  ELSE IF ~SameWord(l.f, o.f, 2) THEN "f"
  ELSE IF Has(l.e) # Has(o.e) THEN "e"
  ELSE LET to == Goal(l, o, q)
           dx == Div(to[1] - q[1], 100)
           dy == Div(to[2] - q[2], 100)
           max == Div(Abs(Max10(k)), 10) IN
       IF ~(Abs(dx) <= max + 2 /\ Abs(dy) <= max + 2) THEN "far"
       ELSE LET len == Isqrt(dx * dx + dy * dy)
                at == {m \in 1..Len(lp2.P): lp2.at[m] = j} \cup (IF Len(lp2.at) > Len(lp2.P) /\ lp2.at[Len(lp2.at)] = j THEN {1} ELSE {})
                tol == 4 + max \div 100 IN
            IF len > max + 2 THEN "far"
            ELSE IF Has(l.e) /\ ~Near(o.e, l.e - Scaled(l.e, len), 14 + (Abs(l.e) * 2) \div 1000) THEN "filament"
            ELSE IF lp2.from # st[j] \/ at = {} THEN "run"
            ELSE LET m == SetMin(at)
                     r == IF Max10(k) > 0 THEN Displacement(Relative(lp2.P, lp2.D, m, Dist, Cross), Max10(k)) ELSE <<0, 0>> IN
                 IF Near(r[1], dx, tol) /\ Near(r[2], dy, tol) THEN "run" ELSE "law"
Compare == /\ v = "run" /\ ph = 3 /\ i < N
           /\ LET j == i + 1
                  lp2 == IF st[j] # 0 /\ st[j] = j THEN Loop(j) ELSE lp IN
              /\ lp' = lp2
              /\ v' = Judge(Tr.L[j], Tr.O[j], j, lp2)
              /\ IF st[j] = j /\ lp2.P # <<>> THEN PrintT("L " \o ToString(Len(lp2.P))) ELSE TRUE
           /\ i' = i + 1 /\ UNCHANGED <<t, ph, s, g, new, loc, kd, st, rel>>
Final == v = "run" /\ ph = 3 /\ i = N /\ v' = "ok" /\ UNCHANGED <<t, i, ph, s, g, new, loc, kd, st, rel, lp>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done" /\ UNCHANGED <<t, i, ph, s, g, new, loc, kd, st, rel, lp>>
Next == Run \/ Turn \/ Loops \/ Compare \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
