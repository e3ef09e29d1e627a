------------------------------- MODULE PMachine -----------------------------
(* The reference printer, for programs of any length with any numbers:      *)
(* an inductive invariant, checked with Apalache (common.py: prove).       *)
(* Values are integers without bounds; NA is the only one no word has.      *)
EXTENDS Machine
VARIABLES
  \* @type: $machine;
  p,
  \* @type: $machine;
  mo,
  \* @type: $machine;
  prev,
  \* @type: $line;
  last
Commands == {"G0", "G1", "G2", "G3", "G4", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "T", ""}
Init == \E hx \in Int, hy \in Int, hz \in Int:
  /\ p = Origin(hx, hy, hz) /\ mo = p /\ prev = p
  /\ last = [c |-> "", x |-> NA, y |-> NA, z |-> NA, e |-> NA, f |-> NA, i |-> NA, j |-> NA, hx |-> FALSE, hy |-> FALSE, hz |-> FALSE, t |-> -1]
Next == \E c \in Commands, x \in Int, y \in Int, z \in Int, e \in Int, f \in Int, hx \in BOOLEAN, hy \in BOOLEAN, hz \in BOOLEAN, t \in Int:
  /\ (t >= 0) <=> c = "T"
  /\ last' = [c |-> c, x |-> x, y |-> y, z |-> z, e |-> e, f |-> f, i |-> NA, j |-> NA, hx |-> hx, hy |-> hy, hz |-> hz, t |-> t]
  /\ prev' = p /\ p' = Exec(p, last', "last") /\ mo' = Exec(mo, last', "or")
Stutter == UNCHANGED <<p, mo, prev, last>>
(* an absolute move brings the named axes where the program says, and leaves the others *)
AbsoluteMovesReach ==
  IsMove(last) /\ ~prev.rel =>
    /\ p.x = IF Has(last.x) THEN U(prev, last.x) + prev.ox ELSE prev.x
    /\ p.y = IF Has(last.y) THEN U(prev, last.y) + prev.oy ELSE prev.y
    /\ p.z = IF Has(last.z) THEN U(prev, last.z) + prev.oz ELSE prev.z
RelativeMovesAdd ==
  IsMove(last) /\ prev.rel =>
    /\ p.x = prev.x + (IF Has(last.x) THEN U(prev, last.x) ELSE 0)
    /\ p.y = prev.y + (IF Has(last.y) THEN U(prev, last.y) ELSE 0)
    /\ p.z = prev.z + (IF Has(last.z) THEN U(prev, last.z) ELSE 0)
MovesKeepOrigin == IsMove(last) => p.ox = prev.ox /\ p.oy = prev.oy /\ p.oz = prev.oz /\ p.oe = prev.oe
OnlyMovesMove ==
  ~IsMove(last) => /\ p.e = prev.e /\ p.tot = prev.tot /\ p.maxE = prev.maxE /\ ~p.ext
                   /\ last.c # "G28" => p.x = prev.x /\ p.y = prev.y /\ p.z = prev.z
OriginTrue ==
  last.c = "G92" => /\ Has(last.x) => p.x - p.ox = U(prev, last.x)
                    /\ Has(last.y) => p.y - p.oy = U(prev, last.y)
                    /\ Has(last.z) => p.z - p.oz = U(prev, last.z)
                    /\ Has(last.e) => p.e - p.oe = U(prev, last.e)
HomeKnown ==
  last.c = "G28" => /\ ~(last.hx \/ last.hy \/ last.hz) => p.x = p.hx /\ p.y = p.hy /\ p.z = p.hz
                    /\ last.hx => p.x = p.hx /\ p.ox = 0
                    /\ ~last.hx /\ last.hy => p.x = prev.x /\ p.ox = prev.ox
FilamentCounted == p.tot = p.e /\ p.maxE >= p.tot /\ p.maxE >= 0
ConventionsAgree == /\ p.x = mo.x /\ p.y = mo.y /\ p.z = mo.z /\ p.rel = mo.rel /\ p.f = mo.f /\ p.m83 = mo.m83
                    /\ (p.relE # (p.rel \/ p.m83)) => p.m83 \/ p.rel
Inv == AbsoluteMovesReach /\ RelativeMovesAdd /\ MovesKeepOrigin /\ OnlyMovesMove /\ OriginTrue /\ HomeKnown /\ FilamentCounted /\ ConventionsAgree
Rest == /\ mo.ox = p.ox /\ mo.oy = p.oy /\ mo.oz = p.oz /\ mo.imp = p.imp /\ mo.hx = p.hx /\ mo.hy = p.hy /\ mo.hz = p.hz
        /\ (p.relE => p.rel \/ p.m83)
Ind == Inv /\ Rest
(* any state with the invariant; the ones before don't matter: last and prev are those of a line which does nothing *)
IndInit ==
  /\ \E x \in Int, y \in Int, z \in Int, e \in Int, ox \in Int, oy \in Int, oz \in Int, oe \in Int, f \in Int, imp \in BOOLEAN,
        rel \in BOOLEAN, relE \in BOOLEAN, m83 \in BOOLEAN, tool \in Int, tot \in Int, maxE \in Int, hx \in Int, hy \in Int, hz \in Int:
       p = [x |-> x, y |-> y, z |-> z, e |-> e, ox |-> ox, oy |-> oy, oz |-> oz, oe |-> oe, f |-> f, imp |-> imp, rel |-> rel, relE |-> relE, m83 |-> m83,
             tool |-> tool, tot |-> tot, maxE |-> maxE, ext |-> FALSE, hx |-> hx, hy |-> hy, hz |-> hz]
  /\ \E e \in Int, oe \in Int, relE \in BOOLEAN, tot \in Int, maxE \in Int:
       mo = [p EXCEPT !.e = e, !.oe = oe, !.relE = relE, !.tot = tot, !.maxE = maxE]
  /\ prev = p
  /\ last = [c |-> "", x |-> NA, y |-> NA, z |-> NA, e |-> NA, f |-> NA, i |-> NA, j |-> NA, hx |-> FALSE, hy |-> FALSE, hz |-> FALSE, t |-> -1]
  /\ Ind
=============================================================================
