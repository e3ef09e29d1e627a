----------------------------- MODULE MCStretch ------------------------------
(* The law of stretch on all closed loops of up to N points of a grid.      *)
EXTENDS Stretch, TLC, Json, IOUtils
CONSTANT N
S == atoi(IOEnv.STEP)                 \* um between points of the grid
Dist == atoi(IOEnv.DIST)              \* 0.1 um
Cross == atoi(IOEnv.CROSS)
Grid == {<<a * S, b * S>>: a \in 0..2, b \in 0..2}
VARIABLES P, closed
Init == P = <<>> /\ closed = FALSE
Point(p) == /\ ~closed /\ Len(P) < N /\ (P # <<>> => P[Len(P)] # p)
            /\ (P = <<>> => p[1] # 2 * S)
            /\ P' = Append(P, p) /\ UNCHANGED closed
Close == /\ ~closed /\ Len(P) >= 3 /\ P[Len(P)] # P[1] /\ SumSeq(Lengths(P)) > Dist
         /\ closed' = TRUE /\ UNCHANGED P
         /\ PrintT("P" \o ToJson(P))
Next == Close \/ \E p \in Grid: Point(p)
Spec == Init /\ [][Next]_<<P, closed>>
R(Q, k) == Relative(Q, Lengths(Q), k, Dist, Cross)
SameVec(a, b) == Near(a[1], b[1], 60) /\ Near(a[2], b[2], 60)
Shift(Q) == SubSeq(Q, 2, Len(Q)) \o <<Q[1]>>
Rev(Q) == [k \in 1..Len(Q) |-> Q[Len(Q) + 1 - k]]
(* at most one *)
Bounded == closed => \A k \in 1..Len(P): LET r == R(P, k) IN r[1] * r[1] + r[2] * r[2] <= 100030000
(* wherever the loop starts *)
StartFree == closed => \A k \in 1..Len(P): R(Shift(P), k) = R(P, Wrap(k + 1, Len(P)))
(* in mirror, and turned by a quarter *)
Mirror(Q) == [k \in 1..Len(Q) |-> <<-Q[k][1], Q[k][2]>>]
Turned(Q) == [k \in 1..Len(Q) |-> <<-Q[k][2], Q[k][1]>>]
Symmetric == closed => \A k \in 1..Len(P): LET r == R(P, k) IN
                /\ SameVec(R(Mirror(P), k), <<-r[1], r[2]>>)
                /\ SameVec(R(Turned(P), k), <<-r[2], r[1]>>)
(* without the cross limit, in both directions the same *)
Reversible == closed => \A k \in 1..Len(P):
                SameVec(Relative(Rev(P), Lengths(Rev(P)), Len(P) + 1 - k, Dist, 1000000), Relative(P, Lengths(P), k, Dist, 1000000))
(* points of convex loops (all turns the same way, once) move outwards *)
Turn(k) == LET n == Len(P) p == P[Wrap(k + n - 1, n)] q == P[k] r == P[Wrap(k + 1, n)] IN
           Sgn(((q[1] - p[1]) \div S) * ((r[2] - q[2]) \div S) - ((q[2] - p[2]) \div S) * ((r[1] - q[1]) \div S))
Area2 == SumSeq([k \in 1..Len(P) |-> LET q == P[Wrap(k + 1, Len(P))] IN (P[k][1] \div S) * (q[2] \div S) - (q[1] \div S) * (P[k][2] \div S)])
Convex == /\ Area2 # 0 /\ \A k \in 1..Len(P): Turn(k) = Sgn(Area2) /\ \A i, j \in 1..Len(P): i # j => P[i] # P[j]
Outwards == closed /\ Len(P) <= 4 /\ Convex => \A k \in 1..Len(P):
              LET n == Len(P) p == P[k] a == P[Wrap(k + 1, n)] b == P[Wrap(k + n - 1, n)]
                  r == Relative(P, Lengths(P), k, Dist, 1000000) IN
              r[1] * ((2 * p[1] - a[1] - b[1]) \div 100) + r[2] * ((2 * p[2] - a[2] - b[2]) \div 100) >= 0
=============================================================================
