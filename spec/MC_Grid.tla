------------------------------ MODULE MC_Grid ------------------------------
(* All small grids: the numbering of nodes is one-to-one, positions are the   *)
(* cell centres of the box continued into the ghost layers, and the enclosing *)
(* node of a position is unique and right.                                    *)
EXTENDS GalsGrid

CONSTANTS MaxN, MaxPad
VARIABLES g, q        \* a grid, and a position in eighths of a cell from node First - 1

Boxes == { <<RInt(-1), RInt(1)>>, <<RFrac(-7, 3), RFrac(1, 5)>>, <<RInt(3), RInt(11)>> }
Grid(d, a, b, c, p, box) ==
  [dim |-> d, n |-> <<a, IF d >= 2 THEN b ELSE 1, IF d >= 3 THEN c ELSE 1>>, pad |-> p,
   lo |-> <<box[1], RMul(RInt(2), box[1]), RSub(box[1], RInt(1))>>,
   hi |-> <<box[2], RMul(RInt(3), RAbs(box[2])), box[2]>>, exact |-> FALSE]
Grids == {Grid(d, a, b, c, p, box) : d \in 1..3, a \in 1..MaxN, b \in 1..MaxN, c \in 1..MaxN, p \in 0..MaxPad, box \in Boxes}

Init == g \in Grids /\ q = 0
Next == q < 8 * (Ext(g, 1) + 2) /\ q' = q + 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, q>>

Bijective == q = 0 => /\ {Ord(g, nd) : nd \in Nodes(g)} = 1..Size(g)
                      /\ Cardinality(Nodes(g)) = Size(g)
                      /\ \A o \in 1..Size(g) : NodeAt(g, o) \in Nodes(g) /\ Ord(g, NodeAt(g, o)) = o
InteriorInside == q = 0 => /\ Interior(g) \subseteq Nodes(g)
                           /\ Cardinality(Interior(g)) = TotalCells(g)
                           /\ \A nd \in Nodes(g) : IsInterior(g, nd) <=> nd \in Interior(g)
Centres == q = 0 =>
  \A a \in 1..g.dim :
     /\ REq(RSub(PosAxis(g, a, 0), g.lo[a]), RSub(g.hi[a], PosAxis(g, a, g.n[a] - 1)))
     /\ \A i \in First(g, a)..Last(g, a) - 1 : REq(RSub(PosAxis(g, a, i + 1), PosAxis(g, a, i)), Dx(g, a))
     /\ \A i \in First(g, a)..Last(g, a) : (RLt(g.lo[a], PosAxis(g, a, i)) /\ RLt(PosAxis(g, a, i), g.hi[a])) <=> i \in 0..g.n[a]-1
\* the position q/8 cells from node First - 1 along every axis
X(a) == RAdd(PosAxis(g, a, First(g, a) - 1), RMul(RFrac(q, 8), Dx(g, a)))
Encloses == \A a \in 1..g.dim :
     LET b == Base(g, a, X(a)) IN
     /\ b = First(g, a) - 1 + (q \div 8)
     /\ RLe(PosAxis(g, a, b), X(a)) /\ RLt(X(a), PosAxis(g, a, b + 1))
     /\ REq(Eta(g, a, X(a)), RFrac(q % 8, 8))
     /\ b \in BaseAllowed(g, a, X(a))
     /\ BaseAllowed(g, a, X(a)) \subseteq (IF q % 8 = 0 THEN {b - 1, b} ELSE {b})
=============================================================================
