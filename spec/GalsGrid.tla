----------------------------- MODULE GalsGrid -----------------------------
(***************************************************************************)
(* The Cartesian grid with ghost layers.                                   *)
(*                                                                         *)
(* A grid is a record                                                      *)
(*   [dim, n, pad, lo, hi, exact]                                          *)
(* dim   number of active axes (1, 2 or 3; the first dim axes are active)  *)
(* n     <<nx, ny, nz>>, number of cells (1 on inactive axes)              *)
(* pad   number of ghost layers around the interior, on active axes only   *)
(* lo,hi bounding box (rationals)                                          *)
(* exact TRUE if all spacings are powers of two and the box corners are    *)
(*       small dyadic numbers, so that the implementation's floating point *)
(*       arithmetic on coordinates is exact and no rounding is excused.    *)
(* A node is a triple <<i, j, k>>; the interior nodes are the cell centres *)
(* 0..n-1, the ghost nodes surround them.                                  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets

Axes == 1..3
Mask(g, a) == IF a <= g.dim THEN 1 ELSE 0
Ext(g, a)  == g.n[a] + 2 * g.pad * Mask(g, a)
Size(g)    == Ext(g, 1) * Ext(g, 2) * Ext(g, 3)
First(g,a) == -(g.pad * Mask(g, a))
Last(g,a)  == g.n[a] - 1 + g.pad * Mask(g, a)
TotalCells(g) == g.n[1] * (IF g.dim >= 2 THEN g.n[2] ELSE 1) * (IF g.dim >= 3 THEN g.n[3] ELSE 1)

\* The specification's own numbering of the nodes, 1..Size: i runs fastest.
Ord(g, nd) == 1 + (nd[1] + g.pad)
                + (nd[2] - First(g, 2)) * Ext(g, 1)
                + (nd[3] - First(g, 3)) * Ext(g, 1) * Ext(g, 2)
NodeAt(g, o) == LET q == o - 1 IN
                << (q % Ext(g, 1)) - g.pad,
                   ((q \div Ext(g, 1)) % Ext(g, 2)) + First(g, 2),
                   (q \div (Ext(g, 1) * Ext(g, 2))) + First(g, 3) >>
Nodes(g)    == {<<i, j, k>> : i \in First(g,1)..Last(g,1), j \in First(g,2)..Last(g,2), k \in First(g,3)..Last(g,3)}
Interior(g) == {<<i, j, k>> : i \in 0..g.n[1]-1, j \in 0..g.n[2]-1, k \in 0..g.n[3]-1}
IsInterior(g, nd) == \A a \in Axes : nd[a] \in 0..g.n[a]-1

Shift(nd, a, d) == [nd EXCEPT ![a] = @ + d]

\* Cell size and node position.  Interior nodes are the centres of g.n equal cells of the box.
Dx(g, a) == RDiv(RSub(g.hi[a], g.lo[a]), RInt(g.n[a]))
PosAxis(g, a, i) == IF Mask(g, a) = 0 THEN RInt(0)
                    ELSE RAdd(g.lo[a], RMul(RFrac(2 * i + 1, 2), Dx(g, a)))
Pos(g, nd) == <<PosAxis(g, 1, nd[1]), PosAxis(g, 2, nd[2]), PosAxis(g, 3, nd[3])>>

\* Position along axis a measured in cells from node 0, and the node at or to the left of it.
NodeCoord(g, a, x) == RSub(RDiv(RSub(x, g.lo[a]), Dx(g, a)), RFrac(1, 2))
Base(g, a, x)      == RFloor(NodeCoord(g, a, x))
\* Local coordinate in [0, 1) within the cell between node Base and node Base + 1.
Eta(g, a, x)       == LET c == NodeCoord(g, a, x) IN RSub(c, RInt(RFloor(c)))
BaseNode(g, x)     == <<Base(g, 1, x[1]), IF g.dim >= 2 THEN Base(g, 2, x[2]) ELSE 0,
                                          IF g.dim >= 3 THEN Base(g, 3, x[3]) ELSE 0>>
\* All corners of the cell that encloses x exist.
CellInside(g, x)   == \A a \in 1..g.dim : LET b == Base(g, a, x[a]) IN b >= First(g, a) /\ b + 1 <= Last(g, a)

\* Rounding the implementation may commit on a coordinate, in cells.
CoordTol(g, a, x)  == RMul(RPow2(-46), RAdd(RInt(4), RDiv(RAdd(RAbs(x), RAdd(RAbs(g.lo[a]), RAbs(g.hi[a]))), Dx(g, a))))
\* The base nodes the implementation may answer: one, unless x is within rounding of a node (and not on a node of an exact
\* grid, where nothing is rounded).
BaseAllowed(g, a, x) ==
  LET c == NodeCoord(g, a, x)
      t == CoordTol(g, a, x)
  IN  IF g.exact /\ REq(c, RInt(RFloor(c))) THEN {RFloor(c)} ELSE {RFloor(RSub(c, t)), RFloor(RAdd(c, t))}
\* The cells the implementation may interpolate in: the one that encloses x, and its neighbour across a node when x is
\* within rounding of that node (sz: size of the numbers x was computed from; given: TRUE if x was given, not computed).
CellsAllowed(g, x, sz, given) ==
  LET One(a) == IF a > g.dim THEN {0}
                ELSE IF given /\ g.exact THEN {Base(g, a, x[a])}
                ELSE LET c == NodeCoord(g, a, x[a])
                         t == CoordTol(g, a, sz[a])
                     IN  {b \in {RFloor(RSub(c, t)), RFloor(RAdd(c, t))} :
                            b = RFloor(c) \/ (b >= First(g, a) /\ b + 1 <= Last(g, a))}
  IN  {<<i, j, k>> : i \in One(1), j \in One(2), k \in One(3)}
===========================================================================
