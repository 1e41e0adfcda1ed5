----------------------------- MODULE GalsNum ------------------------------
(***************************************************************************)
(* The numerical meaning of the library's schemes, in exact arithmetic.    *)
(*                                                                         *)
(* A field over a grid g is a sequence of length Size(g), indexed by       *)
(* Ord(g, node); its elements are tuples of components (1 for a scalar,    *)
(* 3 for a vector, 9 row-major for a matrix, number of mixed derivatives   *)
(* for the mixed field).                                                   *)
(***************************************************************************)
EXTENDS GalsGrid, TLC

At(g, f, nd) == f[Ord(g, nd)]

U == RPow2(-44)                   \* unit of rounding excused in results, relative to the size of the terms
Third == RFrac(1, 3)

-----------------------------------------------------------------------------
(* Finite differences.  Each result is <<value, magnitude of its terms>>.   *)

Weighted(ws, vs, den) ==
  << RDiv(RDot(ws, vs), den),
     RDiv(RSum([q \in 1..Len(ws) |-> RAbs(RMul(ws[q], vs[q]))]), RAbs(den)) >>

\* (f(+1) - f(-1)) / (2 dx)
Central(g, f, c, nd, a) ==
  Weighted(<<RInt(1), RInt(-1)>>,
           <<At(g, f, Shift(nd, a, 1))[c], At(g, f, Shift(nd, a, -1))[c]>>,
           RMul(RInt(2), Dx(g, a)))

\* (2 f(+1) + 3 f(0) - 6 f(-1) + f(-2)) / (6 dx)
ThirdOrder(g, f, c, nd, a) ==
  Weighted(<<RInt(2), RInt(3), RInt(-6), RInt(1)>>,
           <<At(g, f, Shift(nd, a, 1))[c], At(g, f, nd)[c], At(g, f, Shift(nd, a, -1))[c], At(g, f, Shift(nd, a, -2))[c]>>,
           RMul(RInt(6), Dx(g, a)))

Diff(scheme, g, f, c, nd, a) == IF scheme = "central" THEN Central(g, f, c, nd, a) ELSE ThirdOrder(g, f, c, nd, a)
Reach(scheme) == IF scheme = "central" THEN 1 ELSE 2

-----------------------------------------------------------------------------
(* One dimensional cubic Hermite data on [0, h], Bernstein form, and the    *)
(* gradient limiter of Bockmann et al., JCP 258 (2014).                      *)

Control(f0, g0, f1, g1, h, lim) ==
  LET c30 == f0
      c21 == RAdd(f0, RMul(RMul(g0, h), Third))
      c12 == RSub(f1, RMul(RMul(g1, h), Third))
      c03 == f1
      D1 == RMul(RInt(3), RSub(c21, c30))
      D2 == RMul(RInt(3), RSub(c03, c12))
      D3 == RMul(RFrac(3, 2), RSub(c12, c30))
      D4 == RMul(RFrac(3, 2), RSub(c03, c21))
      D5 == RSub(c03, c30)
      Zero == RInt(0)
  IN  IF ~lim THEN <<c30, c21, c12, c03>>
      ELSE IF RLt(RMul(RSub(D1, D3), RSub(D1, D5)), Zero)
           THEN <<c30, c21, RSub(RMul(RInt(2), c21), c30), c03>>
      ELSE IF RLt(RMul(RSub(D2, D4), RSub(D2, D5)), Zero)
           THEN <<c30, RSub(RMul(RInt(2), c12), c03), c12, c03>>
      ELSE IF RLe(RMul(RSub(D1, D5), RSub(D2, D5)), Zero)
           THEN <<c30, RAdd(RMul(RFrac(2,3), c30), RMul(Third, c03)), RAdd(RMul(RFrac(2,3), c03), RMul(Third, c30)), c03>>
      ELSE <<c30, c21, c12, c03>>

Sq(x) == RMul(x, x)
Cu(x) == RMul(x, RMul(x, x))
OneMinus(e) == RSub(RInt(1), e)
Bern(e)  == << Cu(OneMinus(e)), RMul(RInt(3), RMul(e, Sq(OneMinus(e)))), RMul(RInt(3), RMul(Sq(e), OneMinus(e))), Cu(e) >>
BernD(e) == << RMul(RInt(-3), Sq(OneMinus(e))),
               RMul(RInt(3), RMul(OneMinus(e), RSub(RInt(1), RMul(RInt(3), e)))),
               RMul(RInt(3), RMul(e, RSub(RInt(2), RMul(RInt(3), e)))),
               RMul(RInt(3), Sq(e)) >>

\* Hermite weights: HW(e)[corner + 1][derivative order + 1]; HWD the same, differentiated.
HW(e)  == LET e2 == Sq(e)  e3 == Cu(e) IN
          << << RAdd(RSub(RInt(1), RMul(RInt(3), e2)), RMul(RInt(2), e3)), RAdd(RSub(e, RMul(RInt(2), e2)), e3) >>,
             << RSub(RMul(RInt(3), e2), RMul(RInt(2), e3)), RSub(e3, e2) >> >>
HWD(e) == LET e2 == Sq(e) IN
          << << RSub(RMul(RInt(6), e2), RMul(RInt(6), e)), RAdd(RSub(RInt(1), RMul(RInt(4), e)), RMul(RInt(3), e2)) >>,
             << RSub(RMul(RInt(6), e), RMul(RInt(6), e2)), RSub(RMul(RInt(3), e2), RMul(RInt(2), e)) >> >>

-----------------------------------------------------------------------------
(* Tensor-product cubic Hermite interpolation of (value, gradient, mixed     *)
(* derivatives) given at the corners of the enclosing cell.                  *)

\* The datum for derivative orders d (each 0 or 1) at a node; mixed order: xy | xy, yz, zx, xyz.
Datum(g, phi, psi, mix, nd, d) ==
  CASE d = <<0,0,0>> -> At(g, phi, nd)[1]
    [] d = <<1,0,0>> -> At(g, psi, nd)[1]
    [] d = <<0,1,0>> -> At(g, psi, nd)[2]
    [] d = <<0,0,1>> -> At(g, psi, nd)[3]
    [] d = <<1,1,0>> -> At(g, mix, nd)[1]
    [] d = <<0,1,1>> -> At(g, mix, nd)[2]
    [] d = <<1,0,1>> -> At(g, mix, nd)[3]
    [] d = <<1,1,1>> -> At(g, mix, nd)[4]

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Bits(dim) == {<<x, y, z>> : x \in {0,1}, y \in (IF dim >= 2 THEN {0,1} ELSE {0}), z \in (IF dim >= 3 THEN {0,1} ELSE {0})}
TermsOf == [dim \in 1..3 |-> SetToSeq(Bits(dim) \X Bits(dim))]      \* <<corner, derivative orders>>
Terms1 == TermsOf[1]
Terms2 == TermsOf[2]
Terms3 == TermsOf[3]
Terms(dim) == IF dim = 1 THEN Terms1 ELSE IF dim = 2 THEN Terms2 ELSE Terms3

RPowBit(h, d) == IF d = 0 THEN RInt(1) ELSE h

\* Local coordinate of x along axis a in the cell between nodes b and b + 1 (outside [0, 1] if x is not in that cell).
Local(g, a, x, b) == RSub(NodeCoord(g, a, x), RInt(b))

\* Interpolant of the cell with base node b at x: [v |-> value, d |-> gradient (3 components), s |-> magnitude of the data]
HermiteIn(g, phi, psi, mix, x, b) ==
  LET h  == TLCEval([a \in Axes |-> IF a <= g.dim THEN Dx(g, a) ELSE RInt(1)])
      e  == TLCEval([a \in Axes |-> IF a <= g.dim THEN Local(g, a, x[a], b[a]) ELSE RInt(0)])
      w  == TLCEval([a \in Axes |-> HW(e[a])])
      wd == TLCEval([a \in Axes |-> HWD(e[a])])
      T  == Terms(g.dim)
      N  == Len(T)
      dat == TLCEval([q \in 1..N |->
               LET c == T[q][1]  d == T[q][2] IN
               RMul(Datum(g, phi, psi, mix, <<b[1] + c[1], b[2] + c[2], b[3] + c[3]>>, d),
                    RMul(RPowBit(h[1], d[1]), RMul(RPowBit(h[2], d[2]), RPowBit(h[3], d[3]))))])
      wt(q, ax) == LET c == T[q][1]  d == T[q][2]
                       f(a) == IF a = ax THEN wd[a][c[a]+1][d[a]+1] ELSE w[a][c[a]+1][d[a]+1]
                   IN RMul(f(1), RMul(f(2), f(3)))
  IN  [ v |-> RDot([q \in 1..N |-> wt(q, 0)], dat),
        d |-> [a \in Axes |-> IF a <= g.dim THEN RDiv(RDot([q \in 1..N |-> wt(q, a)], dat), h[a]) ELSE RInt(0)],
        s |-> RSum([q \in 1..N |-> RAbs(dat[q])]) ]
Hermite(g, phi, psi, mix, x) == HermiteIn(g, phi, psi, mix, x, BaseNode(g, x))

\* Rounding excused on an interpolated value; x may itself have been computed (size xs along each axis).
InterpTol(g, x, r) ==
  LET k == RSum([a \in 1..g.dim |-> RDiv(RAdd(RAbs(x[a]), RAdd(RAbs(g.lo[a]), RAbs(g.hi[a]))), Dx(g, a))])
  IN  RMul(U, RMul(RAdd(RInt(8), k), r.s))

-----------------------------------------------------------------------------
(* Interpolation from a Bernstein control net, used when the gradients are   *)
(* limited: along every cell edge the interpolant is the limited cubic of    *)
(* that edge's data.                                                          *)

\* net[i][j][k] with singleton trailing axes for dim < 3
NetEval(dim, net, e, h) ==
  LET b(a)  == IF a <= dim THEN Bern(e[a]) ELSE <<RInt(1)>>
      bd(a) == BernD(e[a])
      sum(B1, B2, B3) == RSum([i \in 1..Len(B1) |-> RMul(B1[i],
                           RSum([j \in 1..Len(B2) |-> RMul(B2[j], RDot(B3, net[i][j]))]))])
  IN  [ v |-> sum(b(1), b(2), b(3)),
        d |-> << RDiv(sum(bd(1), b(2), b(3)), h[1]),
                 IF dim >= 2 THEN RDiv(sum(b(1), bd(2), b(3)), h[2]) ELSE RInt(0),
                 IF dim >= 3 THEN RDiv(sum(b(1), b(2), bd(3)), h[3]) ELSE RInt(0) >>,
        s |-> RSum([i \in 1..Len(net) |-> RSum([j \in 1..Len(net[i]) |-> RSum([k \in 1..Len(net[i][j]) |-> RAbs(net[i][j][k])])])]) ]

\* Control points of the line from node p to node q along axis a, for the datum of orders d0 differentiated along a.
Line(g, phi, psi, mix, p, a, d0, lim) ==
  LET q  == Shift(p, a, 1)
      d1 == [d0 EXCEPT ![a] = 1]
  IN  Control(Datum(g, phi, psi, mix, p, d0), Datum(g, phi, psi, mix, p, d1),
              Datum(g, phi, psi, mix, q, d0), Datum(g, phi, psi, mix, q, d1), Dx(g, a), lim)

Net1(g, phi, psi, mix, b, lim) ==
  LET c == Line(g, phi, psi, mix, b, 1, <<0,0,0>>, lim) IN [i \in 1..4 |-> << <<c[i]>> >>]

Net2(g, phi, psi, mix, b, lim) ==
  LET bx == Shift(b, 1, 1)
      by == Shift(b, 2, 1)
      bxy == Shift(bx, 2, 1)
      hx == RMul(Dx(g, 1), Third)
      hy == RMul(Dx(g, 2), Third)
      O  == <<0,0,0>>
      bottom == Line(g, phi, psi, mix, b, 1, O, lim)
      top    == Line(g, phi, psi, mix, by, 1, O, lim)
      left   == Line(g, phi, psi, mix, b, 2, O, lim)
      right  == Line(g, phi, psi, mix, bx, 2, O, lim)
      px(nd) == At(g, psi, nd)[1]
      py(nd) == At(g, psi, nd)[2]
      m(nd)  == At(g, mix, nd)[1]
      row(r) == [j \in 1..4 |-> <<r[j]>>]
  IN  << row(left),
         row(<< bottom[2],
                RAdd(bottom[2], RMul(hy, RAdd(py(b), RMul(hx, m(b))))),
                RSub(top[2], RMul(hy, RAdd(py(by), RMul(hx, m(by))))),
                top[2] >>),
         row(<< bottom[3],
                RSub(right[2], RMul(hx, RAdd(px(bx), RMul(hy, m(bx))))),
                RSub(right[3], RMul(hx, RSub(px(bxy), RMul(hy, m(bxy))))),
                top[3] >>),
         row(right) >>

\* In three dimensions the net is built from limited lines of the value, of the
\* gradient components across, and of the mixed derivative xy along z.
Net3(g, phi, psi, mix, b, lim) ==
  LET nd(x, y, z) == <<b[1] + x, b[2] + y, b[3] + z>>
      hx == RMul(Dx(g, 1), Third)
      hy == RMul(Dx(g, 2), Third)
      hz == RMul(Dx(g, 3), Third)
      V  == <<0,0,0>>
      L(x, y, z, a, d0) == Line(g, phi, psi, mix, nd(x, y, z), a, d0, lim)
      PX == <<1,0,0>>
      PY == <<0,1,0>>
      PZ == <<0,0,1>>
      PXY == <<1,1,0>>
      \* lines of the value
      X == TLCEval([y \in {0,1} |-> TLCEval([z \in {0,1} |-> L(0, y, z, 1, V)])])
      Y == TLCEval([x \in {0,1} |-> TLCEval([z \in {0,1} |-> L(x, 0, z, 2, V)])])
      Z == TLCEval([x \in {0,1} |-> TLCEval([y \in {0,1} |-> L(x, y, 0, 3, V)])])
      \* derivative lines
      YPz == TLCEval([x \in {0,1} |-> TLCEval([z \in {0,1} |-> L(x, 0, z, 2, PZ)])])     \* phi_z along y
      ZPx0 == L(0, 0, 0, 3, PX)                                          \* phi_x along z, at x = y = 0
      XPy == TLCEval([y \in {0,1} |-> TLCEval([z \in {0,1} |-> L(0, y, z, 1, PY)])])      \* phi_y along x
      XPz == TLCEval([y \in {0,1} |-> TLCEval([z \in {0,1} |-> L(0, y, z, 1, PZ)])])      \* phi_z along x
      ZPxy == TLCEval([x \in {0,1} |-> TLCEval([y \in {0,1} |-> L(x, y, 0, 3, PXY)])])    \* phi_xy along z
      ZPy == TLCEval([x \in {0,1} |-> TLCEval([y \in {0,1} |-> L(x, y, 0, 3, PY)])])      \* phi_y along z
      hxy == RMul(hx, hy)
      \* x-faces i = 1, 4
      face(x) == << Z[x][0],
                    << Y[x][0][2], RAdd(Y[x][0][2], RMul(hz, YPz[x][0][2])), RSub(Y[x][1][2], RMul(hz, YPz[x][1][2])), Y[x][1][2] >>,
                    << Y[x][0][3], RAdd(Y[x][0][3], RMul(hz, YPz[x][0][3])), RSub(Y[x][1][3], RMul(hz, YPz[x][1][3])), Y[x][1][3] >>,
                    Z[x][1] >>
      \* rows of the middle layers i = 2 (x = 0, q = 2, sign +) and i = 3 (x = 1, q = 3, sign -)
      rowJ1(x, q) == IF x = 0
                     THEN << X[0][0][2], RAdd(Z[0][0][2], RMul(hx, ZPx0[2])), RAdd(Z[0][0][3], RMul(hx, ZPx0[3])), X[0][1][2] >>
                     ELSE << X[0][0][3], RAdd(X[0][0][3], RMul(hz, XPz[0][0][3])), RSub(X[0][1][3], RMul(hz, XPz[0][1][3])), X[0][1][3] >>
      sg(x, r) == IF x = 0 THEN r ELSE RNeg(r)
      rowJ2(x, q) == << RAdd(X[0][0][q], RMul(hy, XPy[0][0][q])),
                        RAdd(RAdd(X[0][0][q], sg(x, RMul(hxy, ZPxy[x][0][2]))), RAdd(RMul(hy, ZPy[x][0][2]), RMul(hz, XPz[0][0][q]))),
                        RAdd(RAdd(X[0][1][q], sg(x, RMul(hxy, ZPxy[x][0][3]))), RSub(RMul(hy, ZPy[x][0][3]), RMul(hz, XPz[0][1][q]))),
                        RAdd(X[0][1][q], RMul(hy, XPy[0][1][q])) >>
      rowJ3(x, q) == << RSub(X[1][0][q], RMul(hy, XPy[1][0][q])),
                        RAdd(RSub(X[1][0][q], sg(x, RMul(hxy, ZPxy[x][1][2]))), RSub(RMul(hz, XPz[1][0][q]), RMul(hy, ZPy[x][1][2]))),
                        RSub(RSub(X[1][1][q], sg(x, RMul(hxy, ZPxy[x][1][3]))), RAdd(RMul(hy, ZPy[x][1][3]), RMul(hz, XPz[1][1][q]))),
                        RSub(X[1][1][q], RMul(hy, XPy[1][1][q])) >>
      rowJ4(q) == << X[1][0][q], RAdd(X[1][0][q], RMul(hz, XPz[1][0][q])), RSub(X[1][1][q], RMul(hz, XPz[1][1][q])), X[1][1][q] >>
  IN  << face(0),
         << rowJ1(0, 2), rowJ2(0, 2), rowJ3(0, 2), rowJ4(2) >>,
         << rowJ1(1, 3), rowJ2(1, 3), rowJ3(1, 3), rowJ4(3) >>,
         face(1) >>

Net(g, phi, psi, mix, b, lim) ==
  CASE g.dim = 1 -> Net1(g, phi, psi, mix, b, lim)
    [] g.dim = 2 -> Net2(g, phi, psi, mix, b, lim)
    [] g.dim = 3 -> Net3(g, phi, psi, mix, b, lim)

HermiteNetIn(g, phi, psi, mix, x, b, lim) ==
  LET h == TLCEval([a \in Axes |-> IF a <= g.dim THEN Dx(g, a) ELSE RInt(1)])
      e == TLCEval([a \in Axes |-> IF a <= g.dim THEN Local(g, a, x[a], b[a]) ELSE RInt(0)])
  IN  NetEval(g.dim, Net(g, phi, psi, mix, b, lim), e, h)
HermiteNet(g, phi, psi, mix, x, lim) == HermiteNetIn(g, phi, psi, mix, x, BaseNode(g, x), lim)

-----------------------------------------------------------------------------
(* One dimensional linear interpolation: <<value, magnitude>>                *)
LinearIn(g, f, x, b) ==
  LET e == Local(g, 1, x[1], b)
      f0 == At(g, f, <<b, 0, 0>>)[1]
      f1 == At(g, f, <<b + 1, 0, 0>>)[1]
  IN  [v |-> RAdd(RMul(OneMinus(e), f0), RMul(e, f1)), s |-> RAdd(RAbs(f0), RAbs(f1))]
Linear(g, f, x) == LinearIn(g, f, x, Base(g, 1, x[1]))

-----------------------------------------------------------------------------
(* Semi-Lagrangian step at a node: trace the characteristic back one step,   *)
(* interpolate there, and carry the gradient with the Jacobian of the root.  *)
Root(g, nd, u, dt) == LET p == Pos(g, nd) IN [a \in Axes |-> RSub(p[a], RMul(dt, u[a]))]
\* psi_i = sum_j (I - dt grad u)_ji r.d_j   with (grad u)_ji = d u_j / d x_i, stored row-major
Jac(gu, dt, j, i) == RSub(RInt(IF i = j THEN 1 ELSE 0), RMul(dt, gu[3 * (j - 1) + i]))
Carry(gu, dt, d) == [i \in Axes |-> RSum([j \in Axes |-> RMul(Jac(gu, dt, j, i), d[j])])]
CarryMag(gu, dt, m) == [i \in Axes |-> RSum([j \in Axes |-> RMul(RAdd(RInt(IF i = j THEN 1 ELSE 0), RAbs(RMul(dt, gu[3 * (j - 1) + i]))), m[j])])]

-----------------------------------------------------------------------------
(* Square roots, without computing one: s is within t of sqrt(q).            *)
NearSqrt(s, q, t) == /\ RIsNum(s) /\ RIsNum(q) /\ RIsNum(t)
                     /\ RLe(RNeg(t), s)
                     /\ RLe(q, Sq(RAdd(s, t)))
                     /\ (RLe(s, t) \/ RLe(Sq(RSub(s, t)), q))
=============================================================================
