------------------------------ MODULE Machine ------------------------------
(* A reference 3D printer: the meaning of a g-code program.                 *)
(*                                                                          *)
(* A line is a record (see harness/tokens.py):                              *)
(*   c           command ("" for a line without command)                    *)
(*   x y z e f i j   value of the words, NA when absent or without number   *)
(*   hx hy hz    TRUE when the letter is present, with or without a number  *)
(*   t           tool number of a T command, else -1                        *)
(* Two conventions exist for the mode of the extruder: "last" (G90/G91 and  *)
(* M82/M83 override each other) and "or" (E is relative when either G91 or  *)
(* M83 is in force).  Both are tracked.                                     *)
EXTENDS Num

\* @typeAlias: line = {c: Str, x: Int, y: Int, z: Int, e: Int, f: Int, i: Int, j: Int, hx: Bool, hy: Bool, hz: Bool, t: Int};
\* @typeAlias: machine = {x: Int, y: Int, z: Int, e: Int, ox: Int, oy: Int, oz: Int, oe: Int, f: Int, imp: Bool, rel: Bool, relE: Bool, m83: Bool, tool: Int, tot: Int, maxE: Int, ext: Bool, hx: Int, hy: Int, hz: Int};
MachineAliases == TRUE

Moves == {"G0", "G1", "G2", "G3"}
LinearMoves == {"G0", "G1"}
\* @type: $line => Bool;
IsMove(l) == l.c \in Moves
\* @type: $line => Bool;
HasXY(l) == Has(l.x) \/ Has(l.y)

\* @type: (Int, Int, Int) => $machine;
Origin(hx, hy, hz) ==
  [x |-> 0, y |-> 0, z |-> 0, e |-> 0,            \* machine position
   ox |-> 0, oy |-> 0, oz |-> 0, oe |-> 0,        \* origin set by G92
   f |-> 0, imp |-> FALSE,
   rel |-> FALSE,                                 \* G91
   relE |-> FALSE,                                \* convention "last"
   m83 |-> FALSE,                                 \* convention "or"
   tool |-> 0,
   tot |-> 0, maxE |-> 0,                         \* filament so far / highest
   ext |-> FALSE,                                 \* did the last line extrude
   hx |-> hx, hy |-> hy, hz |-> hz]

(* word value in machine units *)
\* @type: ($machine, Int) => Int;
U(m, v) == IF ~Has(v) THEN NA ELSE IF m.imp THEN ToMM(v) ELSE v

\* @type: ($machine, Int, Int, Int) => Int;
Axis(m, cur, off, v) ==
  IF ~Has(v) THEN cur
  ELSE IF m.rel THEN cur + U(m, v) ELSE U(m, v) + off

\* @type: ($machine, Str) => Bool;
RelE(m, conv) == IF conv = "last" THEN m.relE ELSE m.rel \/ m.m83

\* @type: ($machine, $line, Str) => Int;
NewE(m, l, conv) ==
  IF ~Has(l.e) THEN m.e
  ELSE IF RelE(m, conv) THEN m.e + U(m, l.e) ELSE U(m, l.e) + m.oe

\* @type: ($machine, $line, Str) => $machine;
MoveStep(m, l, conv) ==
  LET ne == NewE(m, l, conv)
      nt == m.tot + (ne - m.e)
  IN [m EXCEPT !.x = Axis(m, m.x, m.ox, l.x),
               !.y = Axis(m, m.y, m.oy, l.y),
               !.z = Axis(m, m.z, m.oz, l.z),
               !.f = IF Has(l.f) THEN U(m, l.f) ELSE @,
               !.e = ne, !.tot = nt, !.maxE = Max2(@, nt),
               !.ext = ne > m.e]

\* @type: ($machine, $line) => $machine;
HomeStep(m, l) ==
  LET all == ~(l.hx \/ l.hy \/ l.hz)
  IN [m EXCEPT !.x = IF all \/ l.hx THEN m.hx ELSE @, !.ox = IF all \/ l.hx THEN 0 ELSE @,
               !.y = IF all \/ l.hy THEN m.hy ELSE @, !.oy = IF all \/ l.hy THEN 0 ELSE @,
               !.z = IF all \/ l.hz THEN m.hz ELSE @, !.oz = IF all \/ l.hz THEN 0 ELSE @]

\* @type: ($machine, $line) => $machine;
OriginStep(m, l) ==
  LET none == ~(Has(l.x) \/ Has(l.y) \/ Has(l.z) \/ Has(l.e))
      off(cur, old, v) == IF none THEN cur ELSE IF Has(v) THEN cur - U(m, v) ELSE old
  IN [m EXCEPT !.ox = off(m.x, @, l.x), !.oy = off(m.y, @, l.y),
               !.oz = off(m.z, @, l.z), !.oe = off(m.e, @, l.e)]

(* one line of program, under an extruder convention *)
\* @type: ($machine, $line, Str) => $machine;
Exec(m0, l, conv) ==
  LET m == [m0 EXCEPT !.ext = FALSE] IN
  CASE IsMove(l)    -> MoveStep(m, l, conv)
    [] l.c = "G20"  -> [m EXCEPT !.imp = TRUE]
    [] l.c = "G21"  -> [m EXCEPT !.imp = FALSE]
    [] l.c = "G28"  -> HomeStep(m, l)
    [] l.c = "G90"  -> [m EXCEPT !.rel = FALSE, !.relE = FALSE]
    [] l.c = "G91"  -> [m EXCEPT !.rel = TRUE, !.relE = TRUE]
    [] l.c = "G92"  -> OriginStep(m, l)
    [] l.c = "M82"  -> [m EXCEPT !.relE = FALSE, !.m83 = FALSE]
    [] l.c = "M83"  -> [m EXCEPT !.relE = TRUE, !.m83 = TRUE]
    [] l.t >= 0     -> [m EXCEPT !.tool = l.t]
    [] OTHER        -> m

(* do both conventions agree on the meaning of this line in this state ? *)
\* @type: ($machine, $line) => Bool;
Unambiguous(m, l) == ~(IsMove(l) /\ Has(l.e)) \/ m.relE = (m.rel \/ m.m83)
=============================================================================
