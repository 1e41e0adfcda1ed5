------------------------------ MODULE MC_Step ------------------------------
(* The two time steps on small grids.  Level sets that are monomials of       *)
(* degree up to 3 per axis, carried by a uniform velocity (in quarters of a   *)
(* cell per step) and a uniform velocity gradient: the step is exact on them; *)
(* a step at rest changes nothing; the gradient is carried by the Jacobian of *)
(* the root; ghosts and everything else keep their values.  Every case is     *)
(* printed and replayed.                                                      *)
EXTENDS GalsOps, Json

CONSTANTS Dims, Shifts       \* displacements + 8 (configuration files know no negative numbers)
VARIABLE q        \* [dim, e, u, m]: exponents, displacement in quarter cells, which velocity gradient

Grd(d) == [dim |-> d, n |-> <<2, IF d >= 2 THEN 2 ELSE 1, IF d = 3 THEN 2 ELSE 1>>, pad |-> 2,
           lo |-> <<RInt(-1), RFrac(1, 2), RInt(2)>>, hi |-> <<RInt(1), RFrac(3, 2), RFrac(5, 2)>>, exact |-> TRUE]
G == Grd(q.dim)
Dt == RFrac(1, 2)
ERange(d, a) == IF a <= d THEN 0..3 ELSE {0}
URange(d, a) == IF a <= d THEN {s - 8 : s \in Shifts} ELSE {0}

RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN RInt(1) ELSE RMul(x, Pow(x, e - 1))
DM(x, e, d) == LET f(a) == IF d[a] = 0 THEN Pow(x[a], e[a]) ELSE IF e[a] = 0 THEN RInt(0) ELSE RMul(RInt(e[a]), Pow(x[a], e[a] - 1))
               IN  RMul(f(1), RMul(f(2), f(3)))
E(a) == [b \in Axes |-> IF a = b THEN 1 ELSE 0]
MixOrders == << <<1,1,0>>, <<0,1,1>>, <<1,0,1>>, <<1,1,1>> >>
P(o) == Pos(G, NodeAt(G, o))
Vel == [a \in Axes |-> IF a <= G.dim THEN RDiv(RMul(RFrac(q.u[a], 4), Dx(G, a)), Dt) ELSE RInt(0)]
\* velocity gradients: none, a multiple of the identity, a shear that mixes the axes
Vgr == [i \in 1..9 |-> LET r == 1 + (i - 1) \div 3  c == 1 + ((i - 1) % 3) IN
          IF r > G.dim \/ c > G.dim THEN RInt(0)
          ELSE CASE q.m = "none" -> RInt(0) [] q.m = "swell" -> RInt(IF r = c THEN 1 ELSE 0) [] q.m = "mix" -> RInt(3 * r - 5 * c)]
Sys == LET z == ZeroSystem(G)
           fill(f) == Map(G, LAMBDA o : [i \in 1..NComp(G.dim, f) |-> RInt(o + 11 * i)])
       IN  [z EXCEPT !.f.phiP = Map(G, LAMBDA o : <<DM(P(o), q.e, <<0,0,0>>)>>),
                     !.f.psiP = Map(G, LAMBDA o : [a \in Axes |-> IF a <= G.dim THEN DM(P(o), q.e, E(a)) ELSE RInt(0)]),
                     !.f.mixP = Map(G, LAMBDA o : [i \in 1..NMixed(G.dim) |-> DM(P(o), q.e, MixOrders[i])]),
                     !.f.vel = Map(G, LAMBDA o : Vel), !.f.vgr = Map(G, LAMBDA o : Vgr),
                     !.f.phi = fill("phi"), !.f.psi = fill("psi"), !.f.mix = fill("mix"), !.f.phiI = fill("phiI"), !.f.psiI = fill("psiI")]

Init == q \in {[dim |-> d, e |-> << >>, u |-> << >>, m |-> m] : d \in Dims, m \in {"none", "swell", "mix"}}
Next == \/ Len(q.e) < 3 /\ \E i \in ERange(q.dim, Len(q.e) + 1) : q' = [q EXCEPT !.e = Append(@, i)]
        \/ /\ Len(q.e) = 3 /\ Len(q.u) < 3 /\ \E i \in URange(q.dim, Len(q.u) + 1) : q' = [q EXCEPT !.u = Append(@, i)]
           /\ IF Len(q'.u) = 3 THEN PrintT("REPLAY " \o ToJson(q')) ELSE TRUE
Spec == Init /\ [][Next]_q

Holds(name, c) == Assert(c, <<name, q>>)
Rest == \A a \in Axes : q.u[a] = 0
\* whole cells: the data of the node so many cells upwind
Whole == \A a \in Axes : q.u[a] % 4 = 0
From(nd) == [a \in Axes |-> nd[a] - q.u[a] \div 4]
Good == Len(q.u) = 3 =>
  LET s == TLCEval(Sys)
      t == TLCEval(DoSemiLagrangian(s, Dt))
      h == TLCEval(DoEuler(s, Dt))
      hh == DoEuler([DoEuler(s, RFrac(1, 4)) EXCEPT !.f.phiP = DoEuler(s, RFrac(1, 4)).f.phi], RFrac(1, 4))
      d(nd) == [a \in Axes |-> IF a <= G.dim THEN DM(Root(G, nd, Vel, Dt), q.e, E(a)) ELSE RInt(0)]
  IN  /\ Holds("translates cubics exactly", \A nd \in Interior(G) :
           /\ REq(At(G, t.f.phi, nd)[1], DM(Root(G, nd, Vel, Dt), q.e, <<0,0,0>>))
           /\ q.m = "none" => \A a \in 1..G.dim : REq(At(G, t.f.psi, nd)[a], d(nd)[a])
           /\ q.m = "swell" => \A a \in 1..G.dim : REq(At(G, t.f.psi, nd)[a], RMul(RFrac(1, 2), d(nd)[a])))
      /\ Holds("at rest nothing moves", Rest => \A nd \in Interior(G) :
           At(G, t.f.phi, nd) = At(G, s.f.phiP, nd) /\ (q.m = "none" => At(G, t.f.psi, nd) = At(G, s.f.psiP, nd)))
      /\ Holds("whole cells", Whole => \A nd \in Interior(G) : At(G, t.f.phi, nd) = At(G, s.f.phiP, From(nd)))
      /\ Holds("frame", \A f \in Fields \ {"phi", "psi", "phiI", "psiI"} : t.f[f] = s.f[f])
      /\ Holds("interior only", \A o \in 1..Size(G) : IsInterior(G, NodeAt(G, o)) \/ \A f \in Fields : t.f[f][o] = s.f[f][o])
      /\ Holds("accepted", SemiLagrangianOk(s, t, Dt))
      /\ Holds("strict value", ~SemiLagrangianOk(s, [t EXCEPT !.f.phi[Ord(G, <<0,0,0>>)][1] = RAdd(@, RFrac(1, 1000))], Dt))
      /\ Holds("strict gradient", ~SemiLagrangianOk(s, [t EXCEPT !.f.psi[Ord(G, <<1,0,0>>)][1] = RAdd(@, RFrac(1, 1000))], Dt))
      /\ Holds("euler accepted", EulerOk(s, h, Dt))
      /\ Holds("euler strict", ~EulerOk(s, [h EXCEPT !.f.phi[Ord(G, <<0,0,0>>)][1] = RAdd(@, RFrac(1, 1000))], Dt))
      /\ Holds("two half steps of Euler are one", \A nd \in Interior(G) : REq(At(G, hh.f.phi, nd)[1], At(G, h.f.phi, nd)[1]))
      /\ Holds("euler at rest", q.u[1] = 0 => \A nd \in Interior(G) : At(G, h.f.phi, nd) = At(G, s.f.phiP, nd))
=============================================================================
