----------------------------- MODULE MC_Hermite -----------------------------
(* The cubic Hermite interpolant on small grids of every dimension, for data  *)
(* that determine a linear operator: one datum (value, gradient component or  *)
(* mixed derivative at one node) set to one, and the data of monomials of     *)
(* degree up to 3 per axis; at points on nodes, edges, faces and inside.      *)
(* Every case is printed and replayed.                                        *)
EXTENDS GalsOps, Json

CONSTANTS Dims, Etas       \* Etas: local coordinates in eighths
VARIABLE q                  \* [dim, what, d, e, p]: datum d / monomial, exponents or node e, point p in eighths of a cell from node First

Grd(d) == [dim |-> d, n |-> <<1, 1, 1>>, pad |-> 1, lo |-> <<RInt(-1), RFrac(1, 2), RInt(2)>>, hi |-> <<RInt(1), RInt(1), RInt(3)>>, exact |-> TRUE]
G == Grd(q.dim)
\* derivative orders of the data in d-dimensional space
Data(d) == Bits(d)
Range(k, a) == IF k.what = "mono" THEN (IF a <= k.dim THEN 0..3 ELSE {0}) ELSE First(Grd(k.dim), a)..Last(Grd(k.dim), a)
PRange(k, a) == IF a > k.dim THEN {0} ELSE {e + 8 * c : e \in Etas, c \in (IF k.dim = 3 THEN {0} ELSE 0..1)} \cup {8}

RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN RInt(1) ELSE RMul(x, Pow(x, e - 1))
\* derivative of order d (0 or 1 per axis) of the monomial
DM(x, e, d) == LET f(a) == IF d[a] = 0 THEN Pow(x[a], e[a]) ELSE IF e[a] = 0 THEN RInt(0) ELSE RMul(RInt(e[a]), Pow(x[a], e[a] - 1))
               IN  RMul(f(1), RMul(f(2), f(3)))
Value(nd, d) == IF q.what = "mono" THEN DM(Pos(G, nd), q.e, d) ELSE RInt(IF nd = q.e /\ d = q.d THEN 1 ELSE 0)
Phi == Map(G, LAMBDA o : <<Value(NodeAt(G, o), <<0,0,0>>)>>)
Psi == Map(G, LAMBDA o : LET nd == NodeAt(G, o) IN [a \in Axes |-> IF a <= G.dim THEN Value(nd, [b \in Axes |-> IF a = b THEN 1 ELSE 0]) ELSE RInt(0)])
MixOrders == << <<1,1,0>>, <<0,1,1>>, <<1,0,1>>, <<1,1,1>> >>
Mix == Map(G, LAMBDA o : [i \in 1..NMixed(G.dim) |-> Value(NodeAt(G, o), MixOrders[i])])
X == [a \in Axes |-> IF a <= G.dim THEN RAdd(PosAxis(G, a, First(G, a)), RMul(RFrac(q.p[a], 8), Dx(G, a))) ELSE RInt(0)]

Init == q \in {[dim |-> k, what |-> "mono", d |-> <<0,0,0>>, e |-> << >>, p |-> << >>] : k \in Dims}
              \cup UNION {{[dim |-> k, what |-> "datum", d |-> d, e |-> << >>, p |-> << >>] : d \in Data(k)} : k \in Dims}
Next == \/ /\ Len(q.e) < 3
           /\ \E i \in Range(q, Len(q.e) + 1) : q' = [q EXCEPT !.e = Append(@, i)]
           /\ IF Len(q'.e) = 3 THEN PrintT("REPLAY " \o ToJson(q')) ELSE TRUE
        \/ /\ Len(q.e) = 3 /\ Len(q.p) < 3
           /\ \E i \in PRange(q, Len(q.p) + 1) : q' = [q EXCEPT !.p = Append(@, i)]
Spec == Init /\ [][Next]_q

Holds(name, c) == Assert(c, <<name, q>>)
Reproduces(r) == q.what = "mono" => /\ REq(r.v, DM(X, q.e, <<0,0,0>>))
                                    /\ \A a \in 1..G.dim : REq(r.d[a], DM(X, q.e, [b \in Axes |-> IF a = b THEN 1 ELSE 0]))
\* on a node the interpolant has that node's value and gradient, whatever the other data
OnNode == \A a \in 1..G.dim : q.p[a] % 8 = 0
NodeOf == [a \in Axes |-> IF a <= G.dim THEN First(G, a) + q.p[a] \div 8 ELSE 0]
Nodal(r, phi, psi) == OnNode => REq(r.v, At(G, phi, NodeOf)[1]) /\ \A a \in 1..G.dim : REq(r.d[a], At(G, psi, NodeOf)[a])
\* across the cells that share the point, value and gradient agree
Cells == {b \in {<<i, j, k>> : i \in -1..0, j \in (IF G.dim >= 2 THEN -1..0 ELSE {0}), k \in (IF G.dim = 3 THEN -1..0 ELSE {0})} :
            \A a \in 1..G.dim : LET t == q.p[a] - 8 * (b[a] - First(G, a)) IN t >= 0 /\ t <= 8}
Smooth(phi, psi, mix, r) == \A b \in Cells : LET s == HermiteIn(G, phi, psi, mix, X, b) IN REq(s.v, r.v) /\ \A a \in Axes : REq(s.d[a], r.d[a])
\* the Bernstein control net without limiting is the same interpolant
SameNet(phi, psi, mix, r) == LET s == HermiteNet(G, phi, psi, mix, X, FALSE) IN REq(s.v, r.v) /\ \A a \in Axes : REq(s.d[a], r.d[a])
Good == Len(q.p) = 3 /\ CellInside(G, X) =>
  LET phi == TLCEval(Phi)
      psi == TLCEval(Psi)
      mix == TLCEval(Mix)
      r == Hermite(G, phi, psi, mix, X)
  IN  /\ Holds("reproduces cubics", Reproduces(r))
      /\ Holds("nodal data", Nodal(r, phi, psi))
      /\ Holds("smooth across cells", Smooth(phi, psi, mix, r))
      /\ Holds("control net", SameNet(phi, psi, mix, r))
      /\ Holds("accepted", PointOk(G, phi, psi, mix, X, r.v, r.d))
      /\ Holds("strict", ~REq(r.s, RInt(0)) => ~PointOk(G, phi, psi, mix, X, RAdd(r.v, RFrac(1, 1000000)), r.d))
=============================================================================
