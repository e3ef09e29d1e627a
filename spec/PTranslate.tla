----------------------------- MODULE PTranslate -----------------------------
(* The design of the translation, for programs of any length with any
   numbers (in mm): an inductive invariant, checked with Apalache.  Values
   are integers without bounds; NA is the only one no written word has.     *)
EXTENDS Filters
VARIABLES
  \* @type: $translate;
  q,
  \* @type: $machine;
  mi,
  \* @type: $machine;
  mo,
  \* @type: Int;
  sx,
  \* @type: Int;
  sy
\* @type: ($machine, Seq($line)) => $machine;
All(m, ls) == IF Len(ls) = 1 THEN Exec(m, ls[1], "last") ELSE Exec(Exec(m, ls[1], "last"), ls[2], "last")
Commands == {"G0", "G1", "G2", "G3", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "T", ""}
Init == \E ax \in Int, ay \in Int, hx \in Int, hy \in Int, hz \in Int: q = TranslateStart(ax, ay) /\ mi = Origin(hx, hy, hz) /\ mo = mi /\ sx = 0 /\ sy = 0
Stutter == UNCHANGED <<q, mi, mo, sx, sy>>
\* @type: $line => Bool;
Sane(l) == LET o == TranslateOut(q, l) k == o[Len(o)] IN Has(k.x) = (Has(l.x) \/ Bare(l)) /\ Has(k.y) = (Has(l.y) \/ Bare(l))
           /\ (Len(o) = 2 => Has(o[1].x) /\ Has(o[1].y))
\* @type: $line => Bool;
Step(l) ==
  /\ IsMove(l) => q.mode # "?"
  /\ l.c # "G20"
  /\ Sane(l)
  /\ q' = TranslateNext(q, l)
  /\ mi' = Exec(mi, l, "last") /\ mo' = All(mo, TranslateOut(q, l))
  /\ sx' = ShiftX(mi, sx, l, q.ax) /\ sy' = ShiftY(mi, sy, l, q.ay)
Next == \E c \in Commands, x \in Int, y \in Int, z \in Int, e \in Int, f \in Int, hx \in BOOLEAN, hy \in BOOLEAN, hz \in BOOLEAN, t \in Int:
  /\ (t >= 0) <=> c = "T"
  /\ Step([c |-> c, x |-> x, y |-> y, z |-> z, e |-> e, f |-> f, i |-> NA, j |-> NA, hx |-> hx, hy |-> hy, hz |-> hz, t |-> t])
Shifted == mo.x - mi.x = sx /\ mo.y - mi.y = sy
RestKept == mo.z = mi.z /\ mo.e = mi.e /\ mo.f = mi.f /\ mo.tot = mi.tot /\ mo.rel = mi.rel /\ mo.tool = mi.tool
Knows == q.shx = sx /\ q.shy = sy
Coordinates == q.mode = "abs" => /\ (mo.x - mo.ox) - (mi.x - mi.ox) = (sx - q.ax) + q.trx
                                 /\ (mo.y - mo.oy) - (mi.y - mi.oy) = (sy - q.ay) + q.try
Ind == /\ Shifted /\ RestKept /\ Knows
       /\ (mo.x - mo.ox) - (mi.x - mi.ox) = (sx - q.ax) + q.trx
       /\ (mo.y - mo.oy) - (mi.y - mi.oy) = (sy - q.ay) + q.try
       /\ mo.oz = mi.oz /\ mo.oe = mi.oe /\ mo.imp = mi.imp /\ mo.relE = mi.relE /\ mo.m83 = mi.m83 /\ mo.maxE = mi.maxE 
       /\ mi.tot <= mi.maxE /\ mo.hx = mi.hx /\ mo.hy = mi.hy /\ mo.hz = mi.hz /\ ~mi.imp
       /\ q.mode \in {"?", "abs", "rel"} /\ (q.mode = "abs" => ~mi.rel) /\ (q.mode = "rel" => mi.rel)
IndInit ==
  /\ \E ax \in Int, ay \in Int, trx \in Int, try \in Int, shx \in Int, shy \in Int, mode \in {"?", "abs", "rel"}:
       q = [ax |-> ax, ay |-> ay, trx |-> trx, try |-> try, shx |-> shx, shy |-> shy, mode |-> mode]
  /\ \E x \in Int, y \in Int, z \in Int, e \in Int, ox \in Int, oy \in Int, oz \in Int, oe \in Int, f \in Int,
        rel \in BOOLEAN, relE \in BOOLEAN, m83 \in BOOLEAN, tool \in Int, tot \in Int, maxE \in Int, ext \in BOOLEAN, hx \in Int, hy \in Int, hz \in Int:
       mi = [x |-> x, y |-> y, z |-> z, e |-> e, ox |-> ox, oy |-> oy, oz |-> oz, oe |-> oe, f |-> f, imp |-> FALSE, rel |-> rel, relE |-> relE, m83 |-> m83,
             tool |-> tool, tot |-> tot, maxE |-> maxE, ext |-> ext, hx |-> hx, hy |-> hy, hz |-> hz]
  /\ \E x \in Int, y \in Int, ox \in Int, oy \in Int, ext \in BOOLEAN:
       mo = [mi EXCEPT !.x = x, !.y = y, !.ox = ox, !.oy = oy, !.ext = ext]
  /\ sx \in Int /\ sy \in Int
  /\ Ind
=============================================================================
