------------------------------- MODULE Layers -------------------------------
(* How a program is cut into layers, and its summary.                       *)
(* State: the printer m, the commanded height z (NA until a line sets one), *)
(* the heights at which an extruding move ended, bounds of the moves.       *)
EXTENDS Machine, FiniteSets

\* @typeAlias: box = {x0: Int, x1: Int, y0: Int, y1: Int};
\* @typeAlias: cutting = {m: $machine, z: Int, zs: Set(Int), hs: Set(Int), inch: Bool, lost: Bool, odd: Bool, all: $box, extb: $box, anyext: Bool, new: Bool};
LayersAliases == TRUE

(* the commanded height after line l; m is the printer before it *)
\* @type: ($machine, Int, $line) => Int;
Height(m, z, l) ==
  IF ~Has(l.z) THEN z
  ELSE IF l.c = "G92" THEN U(m, l.z)
  ELSE IF IsMove(l) THEN IF m.rel /\ Has(z) THEN z + U(m, l.z) ELSE U(m, l.z)
  ELSE z

\* @type: $line => Bool;
BareG92(l) == l.c = "G92" /\ ~(Has(l.x) \/ Has(l.y) \/ Has(l.z) \/ Has(l.e))

(* Outside of the domain ("odd"): vase mode, heights which aren't multiples *)
(* of 0.01 mm and within 0.02 mm of another one, relative Z after a height  *)
(* in inches, a height redefined without being named (bare G92), or         *)
(* relative to a height lost by homing.                                     *)
(* homing and bare G92 make relative heights unknown until an absolute one *)
\* @type: (Int, $line) => Bool;
LosesHeight(z, l) == Has(z) /\ z # 0 /\ (BareG92(l) \/ (l.c = "G28" /\ (l.hz \/ ~(l.hx \/ l.hy))))
\* @type: Int => Bool;
Fine(z) == z % 1000 # 0
\* @type: (Set(Int), Int) => Bool;
TooClose(S, z) == z \notin S /\ \E h \in S: (Fine(h) \/ Fine(z)) /\ Abs(h - z) < 2000
\* @type: ($machine, $line) => Bool;
SetsHeight(m, l) == Has(l.z) /\ (l.c = "G92" \/ (IsMove(l) /\ ~m.rel))

\* @type: $box;
NoBox == [x0 |-> NA, x1 |-> -NA, y0 |-> NA, y1 |-> -NA]
\* @type: ($box, $machine) => $box;
Grow(b, m) == [x0 |-> Min2(b.x0, m.x), x1 |-> Max2(b.x1, m.x), y0 |-> Min2(b.y0, m.y), y1 |-> Max2(b.y1, m.y)]

\* @type: Seq(Int) => $cutting;
Start(h) == [m |-> Origin(h[1], h[2], h[3]), z |-> NA, zs |-> {}, hs |-> {}, inch |-> FALSE, lost |-> FALSE, odd |-> FALSE,
             all |-> NoBox, extb |-> NoBox, anyext |-> FALSE, new |-> FALSE]

\* @type: ($cutting, $line) => $cutting;
Advance(s, l) ==
  LET m2 == Exec(s.m, l, "last")
      z2 == Height(s.m, s.z, l)
  IN [m |-> m2, z |-> z2, new |-> z2 # s.z,
      hs |-> IF Has(z2) THEN s.hs \cup {z2} ELSE s.hs,
      inch |-> s.inch \/ (z2 # s.z /\ s.m.imp),
      zs |-> IF m2.ext THEN s.zs \cup {z2} ELSE s.zs,
      lost |-> IF SetsHeight(s.m, l) THEN FALSE ELSE s.lost \/ LosesHeight(s.z, l),
      odd |-> s.odd \/ (z2 # s.z /\ (TooClose(s.hs, z2) \/ (Has(s.z) /\ Abs(z2 - s.z) < 5000)))
                    \/ ((s.inch \/ s.m.imp) /\ Has(l.z) /\ IsMove(l) /\ s.m.rel)
                    \/ (s.lost /\ Has(l.z) /\ IsMove(l) /\ s.m.rel)
                    \/ (BareG92(l) /\ Has(s.z) /\ s.z # 0),
      all |-> IF IsMove(l) THEN Grow(s.all, m2) ELSE s.all,
      extb |-> IF m2.ext THEN Grow(s.extb, m2) ELSE s.extb,
      anyext |-> s.anyext \/ m2.ext]

\* @type: Set(Int) => Int;
SetMax(S) == CHOOSE v \in S: \A w \in S: w <= v
\* @type: Set(Int) => Int;
SetMin(S) == CHOOSE v \in S: \A w \in S: w >= v
=============================================================================
