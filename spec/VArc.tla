-------------------------------- MODULE VArc --------------------------------
(* C16, C17, C18: validates what the arc optimizer wrote (O) for a program  *)
(* (L).  Lines have s: a number for their text.  must: runs <<a, b>> which  *)
(* have to become arcs: segments are the lines a + 1..b, a reaches the start*)
(* of the run; cx, cy, r: centre and radius, in um; d direction             *)
EXTENDS Arc, TLC, Json, IOUtils, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACES)
What == IOEnv.WHAT
VARIABLES t, i, k, mi, mo, debt, rd, arcs, fresh, v
vars == <<t, i, k, mi, mo, debt, rd, arcs, fresh, v>>
\* i, k lines read and written; mi, mo printers; debt: extruder coordinate of the output minus the one of the program;
\* rd: an arc was extruded in relative mode since the last G92 E; arcs: <<lines before, after, filament>>; fresh: an arc has just been read
Tr == Traces[t]
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ k = 0 /\ mi = Origin(0, 0, 0) /\ mo = mi /\ debt = 0 /\ rd = FALSE /\ arcs = <<>> /\ fresh = FALSE
        /\ v = IF Traces[t].err = "" THEN "run" ELSE IF What = "C16" THEN "skip" ELSE Traces[t].err
NL == Len(Tr.L)
NO == Len(Tr.O)
At(m) == <<m.x, m.y>>
CoordE(m) == m.e - m.oe
Same == i < NL /\ k < NO /\ Tr.L[i + 1].s = Tr.O[k + 1].s
ETol == 3 + (IF mi.imp THEN 30 ELSE 0)
Where(m) == <<m.x, m.y, m.z, m.f, m.ox, m.oy, m.oz, m.rel, m.relE, m.imp, m.tool>>
Close(p, q) == /\ \A c \in {1, 2}: Near(p[c], q[c], 60)
               /\ p[3] = q[3] /\ Near(p[4], q[4], 30)
               /\ Near(p[5], q[5], 60) /\ Near(p[6], q[6], 60) /\ \A c \in 7..11: p[c] = q[c]
Motion(l) == l.c \in {"G0", "G1", "G2", "G3", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83"}

(* the printer along the lines j..: where the straight moves end *)
RECURSIVE Along(_, _, _)
Along(m, j, out) ==
  IF j > NL THEN out
  ELSE IF ~(Tr.L[j].c \in LinearMoves) \/ m.rel \/ Len(out) >= 400 THEN out
  ELSE LET m2 == Exec(m, Tr.L[j], "last") IN Along(m2, j + 1, Append(out, m2))
Vertices(path, n) == [q \in 1..n |-> Um(At(path[q]))]
RECURSIVE MaxExcess(_, _, _)
MaxExcess(pts, r, q) == IF q > Len(pts) THEN 0 ELSE
   Max2(Excess(VLength(VSub(pts[q], pts[q - 1])), r), MaxExcess(pts, r, q + 1))
(* vertices a little off the circle make the path longer than the arc: at most, in 1e-3 *)
RECURSIVE MaxLoss(_, _)
MaxLoss(pts, q) == IF q > Len(pts) THEN 0 ELSE
   LET c == VLength(VSub(pts[q], pts[q - 1])) IN Max2(IF c < 22 THEN 1000 ELSE IF c > 1000 THEN 0 ELSE 500000 \div (c * c), MaxLoss(pts, q + 1))

(* C18: is the run m, from here, in the domain *)
Regular(m, path) ==
  LET n == m.b - m.a
      s == Um(At(mi))
      c == <<m.cx, m.cy>> IN
  /\ n >= MinSegments /\ Len(path) >= n /\ m.b < NL
  /\ m.r \in 1000..150000 /\ ~mi.rel
  /\ LET V == Vertices(path, n)
         chord == VLength(VSub(V[1], s)) IN
     /\ \A q \in 1..n: /\ path[q].z = mi.z /\ path[q].f = path[1].f /\ Small(VSub(V[q], c))
                       /\ Has(Tr.L[m.a + q].e) = Has(Tr.L[m.a + 1].e)
                       /\ Abs(Offset(V[q], s, c, m.r)) <= 25
                       /\ Near(VLength(VSub(V[q], IF q = 1 THEN s ELSE V[q - 1])), chord, 4 + chord \div 200)
                       /\ LET e == path[q].tot - (IF q = 1 THEN mi.tot ELSE path[q - 1].tot)
                              e1 == path[1].tot - mi.tot IN
                          Has(Tr.L[m.a + 1].e) => e1 >= 50 /\ Near(e, e1, 2 + e1 \div 40)
     /\ chord >= 60 /\ chord * 1000 <= m.r * 768 /\ chord * n * 100 >= m.r * 52
     /\ Turning([q \in 1..n |-> VSub(V[q], c)], VSub(s, c), m.d, m.r, 1, VSub(s, c), 0) = "ok"
     /\ Len(path) > n => LET p == Um(At(path[n + 1])) IN ~Small(VSub(p, c)) \/ Abs(Offset(p, s, c, m.r)) >= 5000
  /\ \A q \in 1..Len(arcs): arcs[q][2] # m.a
MustHere == {m \in {Tr.must[q]: q \in 1..Len(Tr.must)}: m.a = i /\ What = "C18"}

(* without correction, the next move makes up for at most 1% of what the arc extruded *)
Owes == What = "C17" /\ fresh /\ ~mi.relE /\ ~Near(debt, 0, ETol + 2 + RDiv(arcs[Len(arcs)][3], 98))
(* a line which isn't concerned *)
Keep == /\ v = "run" /\ Same
        /\ LET l == Tr.L[i + 1]
               mi2 == Exec(mi, l, "last")
               mo2 == Exec(mo, l, "last")
               e == IsMove(l) /\ Has(l.e)
               sets == l.c = "G92" /\ (Has(l.e) \/ ~(Has(l.x) \/ Has(l.y) \/ Has(l.z))) IN
           /\ mi' = mi2 /\ mo' = mo2
           /\ debt' = IF sets \/ (e /\ ~mi.relE) THEN 0 ELSE debt
           /\ rd' = (rd /\ ~sets)
           /\ v' = IF \E m \in MustHere: Regular(m, Along(mi, i + 1, <<>>)) THEN "kept"
                   ELSE IF MustHere # {} THEN "skip"
                   ELSE IF e /\ What = "C17" /\ (~Unambiguous(mi, l) \/ (rd /\ ~mi.relE)) THEN "skip"
                   ELSE IF Owes THEN "owes"
                   ELSE IF What # "C18" /\ ~Close(Where(mi2), Where(mo2)) THEN "position"
                   ELSE IF What = "C17" /\ e /\ ~Near(mo2.tot - mo.tot, mi2.tot - mi.tot - (IF mi.relE THEN 0 ELSE debt), ETol) THEN "later-filament"
                   ELSE "run"
        /\ i' = i + 1 /\ k' = k + 1 /\ fresh' = FALSE /\ UNCHANGED <<t, arcs>>
(* lines without motion only matter to C17 *)
DropL == /\ v = "run" /\ What # "C17" /\ ~Same /\ i < NL /\ ~Motion(Tr.L[i + 1]) /\ MustHere = {}
         /\ i' = i + 1 /\ UNCHANGED <<t, k, mi, mo, debt, rd, arcs, fresh, v>>
DropO == /\ v = "run" /\ What # "C17" /\ ~Same /\ k < NO /\ ~Motion(Tr.O[k + 1]) /\ ~(i < NL /\ ~Motion(Tr.L[i + 1]) /\ MustHere = {})
         /\ k' = k + 1 /\ UNCHANGED <<t, i, mi, mo, debt, rd, arcs, fresh, v>>

Arced(a, n, path, mo2) ==
  LET V == Vertices(path, n)
      s == Um(At(mi))
      ij == Um(<<U(mi, IF Has(a.i) THEN a.i ELSE 0), U(mi, IF Has(a.j) THEN a.j ELSE 0)>>)
      c == <<s[1] + ij[1], s[2] + ij[2]>>
      d == IF a.c = "G3" THEN 1 ELSE -1
      exact == mi.imp \/ \A q \in (i + 1)..(i + n): (~Has(Tr.L[q].x) \/ Tr.L[q].x % 100 = 0) /\ (~Has(Tr.L[q].y) \/ Tr.L[q].y % 100 = 0)
      last == path[n] IN
  IF What = "C18" THEN
    IF MustHere = {} THEN "run"
    ELSE IF ~\E m \in MustHere: Regular(m, path) THEN "skip"
    ELSE IF \E m \in MustHere: m.b = i + n /\ m.d = d /\ Near(c[1], m.cx, 60 + m.r \div 500) /\ Near(c[2], m.cy, 60 + m.r \div 500) THEN "run" ELSE "other-arc"
  ELSE IF What = "C16" THEN
    IF n < MinSegments THEN "short"
    ELSE IF \E q \in 1..n: path[q].z # mi.z THEN "height"
    ELSE IF \E q \in 2..n: path[q].f # path[1].f THEN "speeds"
    ELSE LET f == Follows(s, V, c, d, exact) IN
         \* the end of a full turn is its start, as written, or it is no turn at all
         IF f = "run" /\ exact /\ At(last) = At(mi) /\ ~(Near(mo2.x, mo.x, 3) /\ Near(mo2.y, mo.y, 3)) THEN "collapse"
         ELSE IF f = "run" /\ ~EvenTurns(<<s>> \o V, VLength(ij)) THEN "uneven" ELSE f
  ELSE LET E == last.tot - mi.tot
           A == mo2.tot - mo.tot + (IF mi.relE THEN 0 ELSE debt)
           r == VLength(ij)
           more == (Abs(E) \div 1000 + 1) * (MaxExcess(<<s>> \o V, r, 2) \div 1000 + 2)
           less == (Abs(E) \div 1000 + 1) * (MaxLoss(<<s>> \o V, 2) + 1)
           tol == ETol + n IN
       IF ~Unambiguous(mi, Tr.L[i + 1]) \/ (rd /\ ~mi.relE /\ Has(Tr.L[i + 1].e)) THEN "skip"
       ELSE IF \E q \in (i + 1)..(i + n): Has(Tr.L[q].e) # Has(a.e) THEN "mixed"
       ELSE IF \E q \in 1..n: ~Near(mo2.f, path[q].f, 30) THEN "feedrate"
       ELSE IF ~Has(a.e) THEN "run"
       ELSE IF E < 0 THEN "retracted"
       ELSE IF ~EvenExtrusion(<<s>> \o V, [q \in 1..n |-> path[q].tot - (IF q = 1 THEN mi.tot ELSE path[q - 1].tot)]) THEN "uneven"
       ELSE IF ~(A >= E - tol - less /\ A <= E + more + tol) THEN "filament"
       ELSE "run"
(* an arc replaces the lines i + 1..i + n *)
Replace ==
  /\ v = "run" /\ ~Same /\ k < NO /\ i < NL
  /\ What # "C17" => Motion(Tr.L[i + 1]) /\ Motion(Tr.O[k + 1])
  /\ ~(fresh /\ Tr.O[k + 1].c = "G92")
  /\ LET a == Tr.O[k + 1]
         mo2 == Exec(mo, a, "last") IN
     IF ~(a.c \in {"G2", "G3"}) \/ mi.rel THEN v' = "lines" /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
     ELSE IF Owes THEN v' = "owes" /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
     ELSE LET path == Along(mi, i + 1, <<>>)
              ends == {n \in 1..Len(path): Near(path[n].x, mo2.x, 60) /\ Near(path[n].y, mo2.y, 60)}
              good == {n \in ends: Arced(a, n, path, mo2) = "run"} IN
          IF ends = {} THEN v' = "end" /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
          ELSE IF good = {} THEN v' = Arced(a, CHOOSE n \in ends: \A q \in ends: q <= n, path, mo2) /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
          ELSE \E n \in good:
            LET last == path[n] IN
            /\ i' = i + n /\ k' = k + 1 /\ mi' = last
            /\ mo' = [mo2 EXCEPT !.x = last.x, !.y = last.y]      \* what rounding the end may lose isn't followed further
            /\ debt' = IF mi.relE \/ ~Has(a.e) THEN debt ELSE CoordE(mo2) - CoordE(last)
            /\ rd' = (rd \/ (mi.relE /\ Has(a.e)))
            /\ arcs' = Append(arcs, <<i, i + n, Abs(last.tot - mi.tot)>>)
            /\ fresh' = Has(a.e)
            /\ v' = IF What # "C18" /\ ~Close(Where(last), Where([mo2 EXCEPT !.x = last.x, !.y = last.y])) THEN "position" ELSE "run"
            /\ PrintT("A " \o ToString(n))
            /\ t' = t
(* the extruder coordinate is corrected after an arc *)
Correct == /\ v = "run" /\ ~Same /\ fresh /\ k < NO /\ Tr.O[k + 1].c = "G92"
           /\ LET o == Tr.O[k + 1] mo2 == Exec(mo, o, "last") IN
              /\ v' = IF Has(o.x) \/ Has(o.y) \/ Has(o.z) \/ ~Has(o.e) THEN "correction"
                      ELSE IF What = "C17" /\ ~Near(CoordE(mo2), CoordE(mi), ETol) THEN "correction" ELSE "run"
              /\ mo' = mo2 /\ debt' = 0
           /\ k' = k + 1 /\ fresh' = FALSE /\ UNCHANGED <<t, i, mi, rd, arcs>>
Lost == /\ v = "run" /\ i < NL /\ k = NO /\ (What = "C17" \/ Motion(Tr.L[i + 1])) /\ v' = "lost"
        /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
Added == /\ v = "run" /\ i = NL /\ k < NO /\ (What = "C17" \/ Motion(Tr.O[k + 1])) /\ ~(fresh /\ Tr.O[k + 1].c = "G92") /\ v' = "added"
         /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
Final == /\ v = "run" /\ i = NL /\ k = NO
         /\ v' = IF Owes THEN "owes"
                 ELSE IF What = "C18" /\ \E q \in 1..Len(Tr.must): ~\E p \in 1..Len(arcs): arcs[p][1] <= Tr.must[q].a /\ arcs[p][2] >= Tr.must[q].b THEN "missed"
                 ELSE "ok"
         /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done" /\ UNCHANGED <<t, i, k, mi, mo, debt, rd, arcs, fresh>>
Next == Keep \/ DropL \/ DropO \/ Replace \/ Correct \/ Lost \/ Added \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
