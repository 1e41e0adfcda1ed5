------------------------------ MODULE GalsOps ------------------------------
(***************************************************************************)
(* The operations of the library as relations between states.              *)
(*                                                                         *)
(* A system is one simulation: a grid and the fields that live on it.      *)
(*   phi psi mix        current level set, gradient, mixed derivatives     *)
(*   phiP psiP mixP     the previous time level                            *)
(*   phiI psiI          the previous level interpolated at the roots       *)
(*   vel vgr            velocity and velocity gradient                     *)
(* XOk(s, t, args): performing X on system s may yield system t.           *)
(* Every relation says what is written, with which value, and that         *)
(* everything else keeps its value.                                        *)
(***************************************************************************)
EXTENDS GalsNum

Fields == {"phi", "psi", "mix", "phiP", "psiP", "mixP", "phiI", "psiI", "vel", "vgr"}
NMixed(dim) == CASE dim = 1 -> 0 [] dim = 2 -> 1 [] dim = 3 -> 4
NComp(dim, f) == CASE f \in {"phi", "phiP", "phiI"} -> 1
                   [] f \in {"psi", "psiP", "psiI", "vel"} -> 3
                   [] f \in {"mix", "mixP"} -> NMixed(dim)
                   [] f = "vgr" -> 9

\* Diagnostics: name the clause that failed.
Ck(what, c) == IF c THEN TRUE ELSE PrintT(<<"CLAUSE", what>>) /\ FALSE

Same(u, v) == Len(u) = Len(v) /\ \A c \in DOMAIN u : REq(u[c], v[c])      \* NaN equals nothing
SameField(f, h) == f = h \/ (Len(f) = Len(h) /\ \A o \in DOMAIN f : f[o] = h[o])
Unchanged(s, t, fs) == \A f \in fs : Ck(<<"unchanged", f>>, SameField(s.f[f], t.f[f]))
WellFormed(g, f, x) == Len(x) = Size(g) /\ \A o \in DOMAIN x : Len(x[o]) = NComp(g.dim, f)

ZeroTuple(n) == [c \in 1..n |-> RInt(0)]
GhostsSame(g, x, y) == \A o \in 1..Size(g) : IsInterior(g, NodeAt(g, o)) \/ x[o] = y[o]
AtNode(what, nd, c) == IF c THEN TRUE ELSE PrintT(<<"CLAUSE", what, "node", nd>>) /\ FALSE

-----------------------------------------------------------------------------
(* Creation: all fields zero everywhere, ghosts included.                    *)
AllocOk(g, t) ==
  \A f \in Fields :
     /\ Ck(<<"shape", f>>, WellFormed(g, f, t.f[f]))
     /\ Ck(<<"zero", f>>, \A o \in 1..Size(g) : Same(t.f[f][o], ZeroTuple(NComp(g.dim, f))))

(* Writing all nodes of one field through the public accessor.               *)
LoadOk(s, t, f, vals) ==
  /\ Ck("stored", Len(t.f[f]) = Len(vals) /\ \A o \in DOMAIN vals : Same(t.f[f][o], vals[o]))
  /\ Unchanged(s, t, Fields \ {f})

(* Assignment of a whole field (both on the same grid): value semantics.     *)
CopyOk(s, t, dst, src) ==
  /\ Ck("copied", SameField(s.f[src], t.f[dst]))
  /\ Unchanged(s, t, Fields \ {dst})

-----------------------------------------------------------------------------
(* Gradient of src into dst: component-major, row = component, column = axis *)
GradientOk(s, t, scheme, src, dst) ==
  LET g  == s.g
      nc == NComp(g.dim, src)
      rows == IF nc = 1 THEN {1} ELSE 1..g.dim
      A == s.f[dst]
      B == t.f[dst]
  IN  /\ Ck("shape", WellFormed(g, dst, B))
      /\ Unchanged(s, t, Fields \ {dst})
      /\ Ck("ghosts untouched", GhostsSame(g, A, B))
      /\ \A nd \in Interior(g) :
           LET o == Ord(g, nd) IN
           \A c \in (IF nc = 1 THEN {1} ELSE Axes) : \A a \in Axes :
              LET q == 3 * (c - 1) + a IN
              IF c \in rows /\ a <= g.dim
              THEN LET e == Diff(scheme, g, s.f[src], c, nd, a)
                   IN  AtNode(<<"derivative of component", c, "along axis", a>>, nd, RNear(B[o][q], e[1], RMul(U, e[2])))
              ELSE AtNode(<<"inactive entry", c, a>>, nd, A[o][q] = B[o][q] \/ REq(B[o][q], RInt(0)))

-----------------------------------------------------------------------------
(* Interpolation at a list of points placed on another grid xg: the results  *)
(* go to the nodes of the same indices, interior of xg only.                 *)
\* lim: with limited gradients.  Accepted: the interpolant of the enclosing cell, or, within rounding of a node, of its neighbour.
InCellOk(g, phi, psi, mix, x, b, lim, v, d) ==
  LET r == IF lim THEN HermiteNetIn(g, phi, psi, mix, x, b, TRUE) ELSE HermiteIn(g, phi, psi, mix, x, b)
      T == InterpTol(g, x, r)
  IN  /\ RNear(v, r.v, T)
      /\ \A a \in Axes : IF a <= g.dim THEN RNear(d[a], r.d[a], RDiv(T, Dx(g, a))) ELSE REq(d[a], RInt(0))
LimPointOk(g, phi, psi, mix, x, lim, v, d) ==
  Ck(<<IF lim THEN "limited interpolation at" ELSE "interpolation at", x>>,
     \E b \in CellsAllowed(g, x, x, TRUE) : InCellOk(g, phi, psi, mix, x, b, lim, v, d))
PointOk(g, phi, psi, mix, x, v, d) == LimPointOk(g, phi, psi, mix, x, FALSE, v, d)

\* n: number of cells of the grid that carries the points; x: point at each of its interior nodes
InterpOk(s, t, n, x) ==
  LET g == s.g
      Tgt == {<<i, j, k>> : i \in 0..n[1]-1, j \in 0..n[2]-1, k \in 0..n[3]-1}
      ix(nd) == 1 + nd[1] + n[1] * (nd[2] + n[2] * nd[3])
  IN  /\ Ck("shape", WellFormed(g, "phiI", t.f.phiI) /\ WellFormed(g, "psiI", t.f.psiI))
      /\ Unchanged(s, t, Fields \ {"phiI", "psiI"})
      /\ \A o \in 1..Size(g) :
           LET nd == NodeAt(g, o) IN
           IF nd \in Tgt
           THEN AtNode("interpolation", nd, PointOk(g, s.f.phiP, s.f.psiP, s.f.mixP, x[ix(nd)], t.f.phiI[o][1], t.f.psiI[o]))
           ELSE AtNode("outside the points", nd, s.f.phiI[o] = t.f.phiI[o] /\ s.f.psiI[o] = t.f.psiI[o])

\* Linear interpolation of a 1D field at the points x into out (before: out0).
LinearOk(g, f, x, out0, out) ==
  /\ Ck("shape", Len(out) = Len(out0))
  /\ \A i \in 1..Len(x) :
        Ck(<<"linear at", x[i]>>,
           \E b \in CellsAllowed(g, x[i], x[i], TRUE) :
             LET r == LinearIn(g, f, x[i], b[1])
                 T == RMul(U, RMul(RAdd(RInt(8), RDiv(RAdd(RAbs(x[i][1]), RAdd(RAbs(g.lo[1]), RAbs(g.hi[1]))), Dx(g, 1))), r.s))
             IN  RNear(out[i + g.pad][1], r.v, T))
  /\ Ck("linear frame", \A o \in DOMAIN out : o \in (1 + g.pad)..(Len(x) + g.pad) \/ out[o] = out0[o])

-----------------------------------------------------------------------------
(* Time steps.                                                               *)
\* phi = phiPrev - dt * (first velocity component)
EulerOk(s, t, dt) ==
  LET g == s.g IN
  /\ Ck("shape", WellFormed(g, "phi", t.f.phi))
  /\ Unchanged(s, t, Fields \ {"phi"})
  /\ Ck("ghosts untouched", GhostsSame(g, s.f.phi, t.f.phi))
  /\ \A nd \in Interior(g) :
       LET o == Ord(g, nd)
           u == RMul(dt, s.f.vel[o][1])
           p == s.f.phiP[o][1]
       IN  AtNode("euler", nd, RNear(t.f.phi[o][1], RSub(p, u), RMul(U, RAdd(RAbs(p), RAbs(u)))))

SemiLagrangianOk(s, t, dt) ==
  LET g == s.g IN
  /\ \A f \in {"phi", "psi", "phiI", "psiI"} : Ck("shape", WellFormed(g, f, t.f[f]))
  /\ Unchanged(s, t, Fields \ {"phi", "psi", "phiI", "psiI"})
  /\ \A f \in {"phi", "psi", "phiI", "psiI"} : Ck(<<"ghosts untouched", f>>, GhostsSame(g, s.f[f], t.f[f]))
  /\ \A nd \in Interior(g) :
       LET o == Ord(g, nd)
           u == s.f.vel[o]
           x == TLCEval(Root(g, nd, u, dt))
           xs == [a \in Axes |-> RAdd(RAbs(x[a]), RAbs(RMul(dt, u[a])))]
           \* the outcome when the root is taken to lie in the cell with base b
           in(b) ==
             LET r == HermiteIn(g, s.f.phiP, s.f.psiP, s.f.mixP, x, b)
                 T == InterpTol(g, xs, r)
                 Td == TLCEval([a \in Axes |-> IF a <= g.dim THEN RDiv(T, Dx(g, a)) ELSE RInt(0)])
                 mag == TLCEval([a \in Axes |-> RAdd(Td[a], RMul(U, RAbs(r.d[a])))])
                 P == Carry(s.f.vgr[o], dt, r.d)
                 PT == CarryMag(s.f.vgr[o], dt, mag)
             IN  << <<"value carried", RNear(t.f.phi[o][1], r.v, T)>>,
                    <<"value at root", RNear(t.f.phiI[o][1], r.v, T)>>,
                    <<"gradient at root", \A a \in Axes : RNear(t.f.psiI[o][a], r.d[a], Td[a])>>,
                    <<"gradient carried", \A a \in Axes : RNear(t.f.psi[o][a], P[a], PT[a])>> >>
           C == CellsAllowed(g, x, xs, FALSE)
       IN  IF Cardinality(C) = 1
           THEN LET v == in(CHOOSE b \in C : TRUE) IN \A i \in 1..4 : AtNode(v[i][1], nd, v[i][2])
           ELSE AtNode("value and gradient carried", nd, \E b \in C : LET v == in(b) IN \A i \in 1..4 : v[i][2])

-----------------------------------------------------------------------------
(* Analytical fields evaluated at given positions (a 3-vector field).        *)
CircleOk(s, t, pos, name, c, r) ==
  LET g == s.g IN
  /\ Ck("shape", WellFormed(g, "phi", t.f.phi))
  /\ Unchanged(s, t, Fields \ {"phi"})
  /\ IF name # "CIRCLE" THEN Ck("unknown name", SameField(s.f.phi, t.f.phi))
     ELSE /\ Ck("ghosts untouched", GhostsSame(g, s.f.phi, t.f.phi))
          /\ \A nd \in Interior(g) :
               LET o == Ord(g, nd)
                   e == TLCEval([a \in Axes |-> RSub(pos[o][a], c[a])])
                   q == RDot(e, e)
                   v == t.f.phi[o][1]
                   T == RMul(U, RSum(<<RAbs(r), RAbs(v)>> \o [a \in Axes |-> RAdd(RAbs(pos[o][a]), RAbs(c[a]))]))
               IN  AtNode("signed distance", nd, RIsNum(v) /\ NearSqrt(RAdd(v, r), q, T))

Pi == RStr("0x1.921fb54442d18p+1")            \* within 2^-52 of pi
Omega == RDiv(Pi, RFrac(315, 100))             \* angular velocity of the rotation
RotationOk(s, t, pos, name, c, gradient) ==
  LET g == s.g IN
  /\ Ck("shape", WellFormed(g, "vel", t.f.vel) /\ WellFormed(g, "vgr", t.f.vgr))
  /\ Unchanged(s, t, Fields \ {"vel", "vgr"})
  /\ IF name # "CIRCULAR" THEN Unchanged(s, t, {"vel", "vgr"})
     ELSE /\ Ck("ghosts untouched", GhostsSame(g, s.f.vel, t.f.vel) /\ GhostsSame(g, s.f.vgr, t.f.vgr))
          /\ \A nd \in Interior(g) :
               LET o == Ord(g, nd)
                   X == pos[o]
                   v == t.f.vel[o]
                   T(a) == RMul(U, RAdd(RAbs(X[a]), RAbs(c[a])))
               IN  /\ AtNode("velocity x", nd, RNear(v[1], RMul(Omega, RSub(c[2], X[2])), T(2)))
                   /\ AtNode("velocity y", nd, RNear(v[2], RMul(Omega, RSub(X[1], c[1])), T(1)))
                   /\ AtNode("velocity z", nd, REq(v[3], RInt(0)))
          /\ IF gradient # "ANALYTICAL" THEN Unchanged(s, t, {"vgr"})
             ELSE \A nd \in Interior(g) :
               LET o == Ord(g, nd)
                   G == t.f.vgr[o]
                   e(i, j) == IF i = 1 /\ j = 2 THEN RNeg(Omega) ELSE IF i = 2 /\ j = 1 THEN Omega ELSE RInt(0)
               IN  \A i \in Axes : \A j \in Axes :
                     LET q == 3 * (i - 1) + j IN
                     AtNode(<<"velocity gradient", i, j>>, nd,
                       \/ RNear(G[q], e(i, j), RMul(U, RAbs(e(i, j))))
                       \/ (i = 3 \/ j = 3) /\ G[q] = s.f.vgr[o][q])

-----------------------------------------------------------------------------
(* Constructive versions, exact: the state machine checked by TLC.            *)
Map(g, F(_)) == TLCEval([o \in 1..Size(g) |-> TLCEval(F(o))])
ZeroSystem(g) == [g |-> g, f |-> [f \in Fields |-> Map(g, LAMBDA o : ZeroTuple(NComp(g.dim, f)))]]

DoGradient(s, scheme, src, dst) ==
  LET g == s.g
      nc == NComp(g.dim, src)
      val(o, q) == LET nd == NodeAt(g, o)
                       c == IF nc = 1 THEN 1 ELSE 1 + (q - 1) \div 3
                       a == 1 + ((q - 1) % 3)
                   IN IF IsInterior(g, nd) /\ a <= g.dim /\ (nc = 1 \/ c <= g.dim)
                      THEN Diff(scheme, g, s.f[src], c, nd, a)[1] ELSE s.f[dst][o][q]
  IN [s EXCEPT !.f[dst] = Map(g, LAMBDA o : [q \in 1..NComp(g.dim, dst) |-> val(o, q)])]

DoCopy(s, dst, src) == [s EXCEPT !.f[dst] = s.f[src]]

\* The rotation: velocity and its gradient at offset e from the centre.
Spin(e) == <<RNeg(RMul(Omega, e[2])), RMul(Omega, e[1]), RInt(0)>>
SpinGradient == [q \in 1..9 |-> IF q = 2 THEN RNeg(Omega) ELSE IF q = 4 THEN Omega ELSE RInt(0)]
DoRotation(s, pos, c) ==
  LET g == s.g
      inn(o) == IsInterior(g, NodeAt(g, o))
  IN  [s EXCEPT !.f.vel = Map(g, LAMBDA o : IF inn(o) THEN Spin([a \in Axes |-> RSub(pos[o][a], c[a])]) ELSE s.f.vel[o]),
                !.f.vgr = Map(g, LAMBDA o : IF inn(o) THEN SpinGradient ELSE s.f.vgr[o])]

DoEuler(s, dt) ==
  LET g == s.g IN
  [s EXCEPT !.f.phi = Map(g, LAMBDA o : IF IsInterior(g, NodeAt(g, o))
                                        THEN <<RSub(s.f.phiP[o][1], RMul(dt, s.f.vel[o][1]))>> ELSE s.f.phi[o])]

DoSemiLagrangian(s, dt) ==
  LET g == s.g
      inn(o) == IsInterior(g, NodeAt(g, o))
      R == TLCEval([o \in 1..Size(g) |-> IF inn(o) THEN Hermite(g, s.f.phiP, s.f.psiP, s.f.mixP, Root(g, NodeAt(g, o), s.f.vel[o], dt))
                                         ELSE [v |-> s.f.phiI[o][1], d |-> s.f.psiI[o], s |-> RInt(0)]])
  IN [s EXCEPT !.f.phiI = Map(g, LAMBDA o : <<R[o].v>>),
               !.f.psiI = Map(g, LAMBDA o : TLCEval(R[o].d)),
               !.f.phi = Map(g, LAMBDA o : IF inn(o) THEN <<R[o].v>> ELSE s.f.phi[o]),
               !.f.psi = Map(g, LAMBDA o : IF inn(o) THEN Carry(s.f.vgr[o], dt, R[o].d) ELSE s.f.psi[o])]
=============================================================================
