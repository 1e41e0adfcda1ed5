------------------------------ MODULE GalsRef ------------------------------
(***************************************************************************)
(* The reference solvers of src/reference (serial, OpenMP, MPI, MPI with    *)
(* OpenMP, CUDA): advection of a level set and its gradient on a two        *)
(* dimensional node grid, by the gradient augmented level set method.       *)
(*                                                                         *)
(* A setting S carries the domain (xl, xh, nx, yl, yh, ny), the time step   *)
(* dt, the period T of the vortex, the schemes and the initial circle       *)
(* (xo, yo, rc).  A frame is the state printed at one time: four fields     *)
(* phi, psix, psiy, psixy, each a sequence of ny rows of nx numbers, read   *)
(* from the output files, i.e. known to within Printed.                         *)
(***************************************************************************)
EXTENDS GalsOps

Printed   == RStr("6e-11")             \* the files show ten decimals
Fine  == 110                       \* positions, velocities and states are taken to within 2^-Fine: far below Printed
Rnd(a) == RRound(a, Fine)

Hx(S) == Rnd(RDiv(RSub(S.xh, S.xl), RInt(S.nx - 1)))
Hy(S) == Rnd(RDiv(RSub(S.yh, S.yl), RInt(S.ny - 1)))
X(S, j) == RAdd(S.xl, RMul(Hx(S), RInt(j)))          \* j in 0..nx-1
Y(S, i) == RAdd(S.yl, RMul(Hy(S), RInt(i)))          \* i in 0..ny-1
Time(S, k) == RMul(RInt(k), S.dt)
F(f, i, j) == f[i + 1][j + 1]

-----------------------------------------------------------------------------
(* The prescribed fields: a time periodic vortex and a Gaussian bump.        *)
Two == RInt(2)
RefPi  == RStr("3.14159265358979323846264338327950288")
Vel(S, x, y, t) ==
  LET c == RCosPi(RDiv(t, S.T))
      sx == RSinPi(x)  sy == RSinPi(y)
  IN  << Rnd(RMul(RMul(Sq(sx), RSinPi(RMul(Two, y))), c)),
         Rnd(RNeg(RMul(RMul(Sq(sy), RSinPi(RMul(Two, x))), c))) >>
\* << du/dx, du/dy, dv/dx, dv/dy >>
GradVel(S, x, y, t) ==
  LET c == RMul(RefPi, RCosPi(RDiv(t, S.T)))
      s2x == RSinPi(RMul(Two, x))  s2y == RSinPi(RMul(Two, y))
      p == Rnd(RMul(RMul(s2x, s2y), c))
  IN  << p,
         Rnd(RMul(RMul(RMul(Two, Sq(RSinPi(x))), RCosPi(RMul(Two, y))), c)),
         Rnd(RNeg(RMul(RMul(RMul(Two, Sq(RSinPi(y))), RCosPi(RMul(Two, x))), c))),
         RNeg(p) >>
Bump(S, x, y) ==
  LET a == RSub(x, S.xo)  b == RSub(y, S.yo)
      e == RExp(RNeg(RAdd(Sq(a), Sq(b))))
  IN  [ phi   |-> RSub(e, RExp(RNeg(Sq(S.rc)))),
        psix  |-> Rnd(RMul(RMul(RInt(-2), a), e)),
        psiy  |-> Rnd(RMul(RMul(RInt(-2), b), e)),
        psixy |-> Rnd(RMul(RMul(RInt(4), RMul(a, b)), e)) ]

-----------------------------------------------------------------------------
(* Characteristics, traced back over one step from node (i, j) at step k+1   *)
(* to step k: the root and the Jacobian of the map from the node to it, by   *)
(* differentiating the same scheme.                                          *)
(* Matrices are << xx, xy, yx, yy >>: d(component)/d(node coordinate).        *)
MatI == << RInt(1), RInt(0), RInt(0), RInt(1) >>
MatMul(A, B) == << RAdd(RMul(A[1], B[1]), RMul(A[2], B[3])), RAdd(RMul(A[1], B[2]), RMul(A[2], B[4])),
                   RAdd(RMul(A[3], B[1]), RMul(A[4], B[3])), RAdd(RMul(A[3], B[2]), RMul(A[4], B[4])) >>
MatAdd(A, B) == [q \in 1..4 |-> RAdd(A[q], B[q])]
MatScale(c, A) == [q \in 1..4 |-> Rnd(RMul(c, A[q]))]
VecAdd(a, b) == << RAdd(a[1], b[1]), RAdd(a[2], b[2]) >>
VecScale(c, a) == << Rnd(RMul(c, a[1])), Rnd(RMul(c, a[2])) >>
VecSub(a, b) == << RSub(a[1], b[1]), RSub(a[2], b[2]) >>
MatSub(A, B) == [q \in 1..4 |-> RSub(A[q], B[q])]

Back(S, i, j, k) ==
  LET p  == << X(S, j), Y(S, i) >>
      t1 == Time(S, k + 1)
      t0 == Time(S, k)
      u0 == TLCEval(Vel(S, p[1], p[2], t1))
      G0 == TLCEval(GradVel(S, p[1], p[2], t1))
      r1 == TLCEval(VecSub(p, VecScale(S.dt, u0)))
      J1 == TLCEval(MatSub(MatI, MatScale(S.dt, G0)))
  IN  IF S.back # "RK3" THEN [r |-> r1, J |-> J1]
      ELSE LET u1 == TLCEval(Vel(S, r1[1], r1[2], t0))
               G1 == TLCEval(MatMul(GradVel(S, r1[1], r1[2], t0), J1))
               q4 == RMul(S.dt, RFrac(1, 4))
               r2 == TLCEval(VecSub(p, VecScale(q4, VecAdd(u0, u1))))
               J2 == TLCEval(MatSub(MatI, MatScale(q4, MatAdd(G0, G1))))
               th == RAdd(t0, RMul(S.dt, RFrac(1, 2)))
               u2 == TLCEval(Vel(S, r2[1], r2[2], th))
               G2 == TLCEval(MatMul(GradVel(S, r2[1], r2[2], th), J2))
               q6 == RMul(S.dt, RFrac(1, 6))
           IN  [ r |-> VecSub(p, VecScale(q6, VecAdd(VecAdd(u0, u1), VecScale(RInt(4), u2)))),
                 J |-> MatSub(MatI, MatScale(q6, MatAdd(MatAdd(G0, G1), MatScale(RInt(4), G2)))) ]

-----------------------------------------------------------------------------
(* Bicubic Hermite interpolation in the cell whose lower left node is        *)
(* (ci, cj).                                                                  *)
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
CellOf(x, lo, h, n) == Clamp(RFloor(RDiv(RSub(x, lo), h)), 0, n - 2)
Corners == << <<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>> >>          \* row, column offsets

Herm(S, f, x, y, ci, cj) ==
  LET hx == Hx(S)  hy == Hy(S)
      ex == Rnd(RDiv(RSub(x, X(S, cj)), hx))
      ey == Rnd(RDiv(RSub(y, Y(S, ci)), hy))
      wx == TLCEval(HW(ex))  wy == TLCEval(HW(ey))
      dx == TLCEval(HWD(ex)) dy == TLCEval(HWD(ey))
      \* sum over corners and derivative orders
      sum(A, B) == RSum([q \in 1..4 |->
         LET oi == Corners[q][1]  oj == Corners[q][2]
             i == ci + oi         j == cj + oj
             a == A[oj + 1]       b == B[oi + 1]
         IN  RAdd(RMul(b[1], RAdd(RMul(a[1], F(f.phi, i, j)), RMul(RMul(a[2], hx), F(f.psix, i, j)))),
                  RMul(RMul(b[2], hy), RAdd(RMul(a[1], F(f.psiy, i, j)), RMul(RMul(a[2], hx), F(f.psixy, i, j)))))])
  IN  [ v |-> Rnd(sum(wx, wy)), dx |-> Rnd(RDiv(sum(dx, wy), hx)), dy |-> Rnd(RDiv(sum(wx, dy), hy)) ]

-----------------------------------------------------------------------------
(* One node, one step.  xin / yin: does the root lie inside the domain along  *)
(* that axis?  A root outside along an axis is not used along it: the node    *)
(* then moves along that axis by an Eulerian update with its own gradient.    *)
(* phi' and psi' of the node; psixy' is a matter of the new gradients.        *)
Dot2(a, b) == RAdd(RMul(a[1], b[1]), RMul(a[2], b[2]))

Moved(S, f, i, j, k, b, xin, yin) ==
  LET x == X(S, j)  y == Y(S, i)
      psi == << F(f.psix, i, j), F(f.psiy, i, j) >>
      m   == F(f.psixy, i, j)
      phi == F(f.phi, i, j)
      dt  == S.dt
      u0  == Vel(S, x, y, Time(S, k))
      u1  == Vel(S, x, y, Time(S, k + 1))
      g0  == GradVel(S, x, y, Time(S, k))
      g1  == GradVel(S, x, y, Time(S, k + 1))
      hdt == RMul(dt, RFrac(1, 2))
      cj  == CellOf(b.r[1], S.xl, Hx(S), S.nx)
      ci  == CellOf(b.r[2], S.yl, Hy(S), S.ny)
      \* Heun's method for q' = -rate(q, .) from q0, the two stages given the rates at old and new time
      Heun(root, old, r0(_), r1(_)) ==
        LET p == RSub(root, RMul(dt, r0(old))) IN Rnd(RSub(root, RMul(hdt, RAdd(r0(old), r1(p)))))
  IN
  IF xin /\ yin THEN
    LET h == TLCEval(Herm(S, f, b.r[1], b.r[2], ci, cj))
        r == << h.dx, h.dy >>
        \* psi_x' = -(u_x psi_x + v_x psi_y), psi_y' = -(u_y psi_x + v_y psi_y)
        gr == GradVel(S, b.r[1], b.r[2], Time(S, k))
        rate(g, p) == << Dot2(<<g[1], g[3]>>, p), Dot2(<<g[2], g[4]>>, p) >>
        s0 == TLCEval(rate(gr, r))
        pred == TLCEval(VecSub(r, VecScale(dt, s0)))
    IN  [ phi |-> h.v,
          psi |-> IF S.scheme = "Heuns" THEN VecSub(r, VecScale(hdt, VecAdd(s0, rate(g1, pred))))
                  ELSE << Rnd(Dot2(<<b.J[1], b.J[3]>>, r)), Rnd(Dot2(<<b.J[2], b.J[4]>>, r)) >> ]
  ELSE IF xin THEN
    LET h == Herm(S, f, b.r[1], y, Clamp(i, 0, S.ny - 2), cj)
        r0(q) == RAdd(RAdd(RMul(g0[3], psi[2]), RMul(u0[2], m)), RMul(g0[1], q))
        r1(q) == RAdd(RAdd(RMul(g1[3], psi[2]), RMul(u1[2], m)), RMul(g1[1], q))
    IN  [ phi |-> Rnd(RSub(h.v, RMul(dt, RMul(u0[2], psi[2])))),
          psi |-> << Heun(h.dx, psi[1], r0, r1), psi[2] >> ]
  ELSE IF yin THEN
    LET h == Herm(S, f, x, b.r[2], ci, Clamp(j, 0, S.nx - 2))
        r0(q) == RAdd(RAdd(RMul(g0[2], psi[1]), RMul(u0[1], m)), RMul(g0[4], q))
        r1(q) == RAdd(RAdd(RMul(g1[2], psi[1]), RMul(u1[1], m)), RMul(g1[4], q))
    IN  [ phi |-> Rnd(RSub(h.v, RMul(dt, RMul(u0[1], psi[1])))),
          psi |-> << psi[1], Heun(h.dy, psi[2], r0, r1) >> ]
  ELSE  [ phi |-> Rnd(RSub(phi, RMul(dt, Dot2(u0, psi)))), psi |-> psi ]

\* Whether a root is inside, where rounding leaves no doubt; else both.
Slack == RPow2(-42)
Inside(lo, hi, r) == LET d == RMul(Slack, RAdd(RInt(1), RAdd(RAbs(lo), RAbs(hi)))) IN
  (IF RLt(RSub(lo, d), r) /\ RLt(r, RAdd(hi, d)) THEN {TRUE} ELSE {}) \cup
  (IF RLt(RAdd(lo, d), r) /\ RLt(r, RSub(hi, d)) THEN {} ELSE {FALSE})

-----------------------------------------------------------------------------
(* Mixed derivative from the gradients.                                       *)
Mixed(S, px, py, i, j) ==
  LET hx == Hx(S)  hy == Hy(S)
      ie == i = 0 \/ i = S.ny - 1
      je == j = 0 \/ j = S.nx - 1
      dyx(r) == RDiv(RSub(F(py, r, j + 1), F(py, r, j - 1)), RMul(Two, hx))
      dxy(c) == RDiv(RSub(F(px, i + 1, c), F(px, i - 1, c)), RMul(Two, hy))
      \* one sided differences of the corner cell, extrapolated
      in == IF i = 0 THEN 1 ELSE S.ny - 2        \* the row next to the edge
      jn == IF j = 0 THEN 1 ELSE S.nx - 2
      ox(r) == RDiv(RSub(F(py, r, IF j = 0 THEN 1 ELSE j), F(py, r, IF j = 0 THEN 0 ELSE jn)), hx)
      oy(c) == RDiv(RSub(F(px, IF i = 0 THEN 1 ELSE i, c), F(px, IF i = 0 THEN 0 ELSE in, c)), hy)
  IN  IF ie /\ je THEN RSub(RMul(RFrac(3, 4), RAdd(ox(i), oy(j))), RMul(RFrac(1, 4), RAdd(ox(in), oy(jn))))
      ELSE IF ie THEN dyx(i)
      ELSE IF je THEN dxy(j)
      ELSE RMul(RFrac(1, 2), RAdd(dyx(i), dxy(j)))

-----------------------------------------------------------------------------
(* Tolerances: what ten decimals leave open, carried through the formulas.    *)
Scale(S)  == RMul(RMul(RInt(12), RAdd(RInt(1), Hx(S))), RAdd(RInt(1), Hy(S)))
MinH(S)   == RMin(RInt(1), RMin(Hx(S), Hy(S)))
TolPhi(S) == RMul(Printed, RAdd(Scale(S), RMul(RInt(4), S.dt)))
Growth(S) == Sq(RAdd(RInt(1), RMul(RInt(14), S.dt)))            \* 14 > the sum of the vortex' gradients
TolPsi(S) == RMul(Printed, RMul(RDiv(Scale(S), MinH(S)), Growth(S)))
TolMix(S) == RMul(Printed, RAdd(RInt(1), RAdd(RDiv(RInt(3), Hx(S)), RDiv(RInt(3), Hy(S)))))

\* Some settings let the values grow without bound; where they are large the doubles
\* themselves leave open more than ten decimals do.
RECURSIVE TopRow(_, _), TopRows(_, _)
TopRow(r, n)  == IF n = 0 THEN RInt(0) ELSE RMax(RAbs(r[n]), TopRow(r, n - 1))
TopRows(a, n) == IF n = 0 THEN RInt(0) ELSE RMax(TopRow(a[n], Len(a[n])), TopRows(a, n - 1))
Top(f) == TLCEval(RMax(RMax(TopRows(f.phi, Len(f.phi)), TopRows(f.psixy, Len(f.psixy))), RMax(TopRows(f.psix, Len(f.psix)), TopRows(f.psiy, Len(f.psiy)))))
Close(f, a, b, tol) == RNear(a, b, tol) \/ RNear(a, b, RMul(tol, RMul(Top(f), RStr("1e-5"))))

AtRef(what, i, j, k, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", what, "row", i, "column", j, "step", k>>) /\ FALSE

PhiStepOk(S, f, h, k) ==
  \A i \in 0..S.ny-1 : \A j \in 0..S.nx-1 :
    LET b == TLCEval(Back(S, i, j, k)) IN
    AtRef("value carried along the characteristic", i, j, k + 1,
      \E xin \in Inside(S.xl, S.xh, b.r[1]) : \E yin \in Inside(S.yl, S.yh, b.r[2]) :
        Close(f, F(h.phi, i, j), Moved(S, f, i, j, k, b, xin, yin).phi, TolPhi(S)))
PsiStepOk(S, f, h, k) ==
  \A i \in 0..S.ny-1 : \A j \in 0..S.nx-1 :
    LET b == TLCEval(Back(S, i, j, k)) IN
    AtRef("gradient carried along the characteristic", i, j, k + 1,
      \E xin \in Inside(S.xl, S.xh, b.r[1]) : \E yin \in Inside(S.yl, S.yh, b.r[2]) :
        LET w == TLCEval(Moved(S, f, i, j, k, b, xin, yin).psi)
        IN  Close(f, F(h.psix, i, j), w[1], TolPsi(S)) /\ Close(f, F(h.psiy, i, j), w[2], TolPsi(S)))
MixOk(S, h, k) ==
  \A i \in 0..S.ny-1 : \A j \in 0..S.nx-1 :
    AtRef("mixed derivative", i, j, k, Close(h, F(h.psixy, i, j), Mixed(S, h.psix, h.psiy, i, j), TolMix(S)))
InitOk(S, h) ==
  \A i \in 0..S.ny-1 : \A j \in 0..S.nx-1 :
    LET w == TLCEval(Bump(S, X(S, j), Y(S, i))) IN
    \A q \in {"phi", "psix", "psiy", "psixy"} : AtRef(<<"initial", q>>, i, j, 0, RNear(F(h[q], i, j), w[q], Printed))
VelOk(S, h, k) ==
  \A i \in 0..S.ny-1 : \A j \in 0..S.nx-1 :
    LET w == TLCEval(Vel(S, X(S, j), Y(S, i), Time(S, k))) IN
    AtRef("velocity", i, j, k, RNear(F(h.u, i, j), w[1], Printed) /\ RNear(F(h.v, i, j), w[2], Printed))
Quantities == {"phi", "psix", "psiy", "psixy", "u", "v"}
Same10 == RStr("1e-9")
SameOk(S, a, h, k) ==
  \A q \in Quantities : \A i \in 0..S.ny-1 : \A j \in 0..S.nx-1 :
    AtRef(<<"same as the serial program", q>>, i, j, k, Close(a, F(a[q], i, j), F(h[q], i, j), Same10))

-----------------------------------------------------------------------------
(* A run: which frames are printed, and what details.txt says.                *)
\* the quotient of two doubles is rounded, at most up to the next whole number
Steps(S) == LET q == RDiv(S.tf, S.dt) IN {RFloor(q), RFloor(RMul(q, RAdd(RInt(1), RPow2(-52))))}
Every(S, n) == IF S.option = 1 THEN S.every ELSE n
FrameSteps(n, every) == {0} \cup {k \in 1..n : every > 0 /\ k % every = 0}
Ten(a, s) == RNear(RStr(s), a, RStr("6e-11"))
DetailsOk(S, d) ==
  /\ Ck("details.txt has its eleven numbers", Len(d) = 11)
  /\ Ck("details.txt: nodes", d[1] = ToString(S.nx) /\ d[2] = ToString(S.ny))
  /\ Ck("details.txt: cell sizes", Ten(Hx(S), d[3]) /\ Ten(Hy(S), d[4]))
  /\ Ck("details.txt: domain", Ten(S.xl, d[5]) /\ Ten(S.xh, d[6]) /\ Ten(S.yl, d[7]) /\ Ten(S.yh, d[8]))
  /\ Ck("details.txt: number of steps", \E n \in Steps(S) : d[9] = ToString(n) /\ d[11] = ToString(Every(S, n)))
  /\ Ck("details.txt: time step", Ten(S.dt, d[10]))
\* shapes: quantity -> sequence of frames, each << rows, columns of each row >>
FilesOk(S, shapes) ==
  \E n \in Steps(S) :
    LET want == Cardinality(FrameSteps(n, Every(S, n))) IN
    \A q \in Quantities :
      /\ Ck(<<"number of frames in the file of", q, Len(shapes[q]), want>>, Len(shapes[q]) = want)
      /\ \A m \in 1..want : Ck(<<"rows and columns of frame", m, "of", q>>, shapes[q][m] = [i \in 1..S.ny |-> S.nx])
=============================================================================
