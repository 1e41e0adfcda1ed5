----------------------------- MODULE MC_RefStep -----------------------------
(* The step of the reference solvers as an executable specification: from      *)
(* the bump, some steps on small grids whose domains let roots stay inside,    *)
(* leave along either axis or along both.  The step agrees with what is known  *)
(* of the method independently of it: the Jacobian is the derivative of the    *)
(* root, the flow keeps areas up to its order, walls of the vortex are not     *)
(* crossed, interpolation and mixed derivatives reproduce polynomials.  Every  *)
(* setting is printed and replayed as runs of the programs.                    *)
EXTENDS GalsRef, Json, TLC

CONSTANTS Domains, Sizes, Dts, Schemes, Backs, MaxSteps
VARIABLES c, k, f        \* c: the setting chosen; k: steps done; f: the frame

\* named domains: the whole vortex, parts of it in which it flows in and out, one larger than it
Dom(d) == CASE d = "unit"  -> << RInt(0), RInt(1), RInt(0), RInt(1) >>
            [] d = "left"  -> << RInt(0), RFrac(3, 5), RInt(0), RInt(1) >>
            [] d = "inner" -> << RFrac(1, 10), RFrac(9, 10), RFrac(1, 5), RFrac(7, 10) >>
            [] d = "shift" -> << RFrac(-1, 4), RFrac(1, 2), RFrac(1, 3), RFrac(4, 3) >>
            [] d = "wide"  -> << RInt(-1), RInt(2), RFrac(-1, 2), RFrac(3, 2) >>
Dt(c0) == RMul(RFrac(c0.dt, 8), RMin(RFrac(1, 4), RMin(RDiv(RSub(Dom(c0.dom)[2], Dom(c0.dom)[1]), RInt(c0.nx - 1)),
                                     RDiv(RSub(Dom(c0.dom)[4], Dom(c0.dom)[3]), RInt(c0.ny - 1)))))
SetOf(c0) == LET d == Dom(c0.dom) IN
  [ nx |-> c0.nx, ny |-> c0.ny, xl |-> d[1], xh |-> d[2], yl |-> d[3], yh |-> d[4], dt |-> Rnd(Dt(c0)),
    tf |-> RInt(1), T |-> RFrac(c0.period, 4), option |-> 1, every |-> 1, scheme |-> c0.scheme, back |-> c0.back,
    xo |-> RFrac(1, 2), yo |-> RFrac(3, 4), rc |-> RFrac(3, 20) ]

Start(S) ==
  LET b == [i \in 1..S.ny |-> [j \in 1..S.nx |-> Bump(S, X(S, j - 1), Y(S, i - 1))]]
  IN  [q \in {"phi", "psix", "psiy", "psixy"} |-> TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |-> b[i][j][q]]])]
In1(lo, hi, r) == RLt(lo, r) /\ RLt(r, hi)
DoStep(S, g, t) ==
  LET m == TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |->
             LET b == Back(S, i - 1, j - 1, t)
             IN  Moved(S, g, i - 1, j - 1, t, b, In1(S.xl, S.xh, b.r[1]), In1(S.yl, S.yh, b.r[2]))]])
      px == TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |-> m[i][j].psi[1]]])
      py == TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |-> m[i][j].psi[2]]])
  IN  [ phi |-> TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |-> m[i][j].phi]]), psix |-> px, psiy |-> py,
        psixy |-> TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |-> Rnd(Mixed(S, px, py, i - 1, j - 1))]]) ]

Init == /\ c \in [dom : Domains, nx : Sizes, ny : Sizes, dt : Dts, period : {4, 7}, scheme : Schemes, back : Backs]
        /\ k = -1
        /\ f = << >>
        /\ PrintT("REPLAY " \o ToJson(c))
Next == k < MaxSteps /\ k' = k + 1 /\ f' = (IF k = -1 THEN Start(SetOf(c)) ELSE DoStep(SetOf(c), f, k)) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, k, f>>

-----------------------------------------------------------------------------
RNodes(S) == (0..S.ny-1) \X (0..S.nx-1)
Holds(name, cond) == Assert(cond, <<name, c, k>>)
\* a step of the specification is accepted by its own judgement
SelfConsistent == [][k = -1 \/ (PhiStepOk(SetOf(c), f, f', k) /\ PsiStepOk(SetOf(c), f, f', k) /\ MixOk(SetOf(c), f', k + 1))]_<<c, k, f>>

Shifted(S, a, d) == IF a = 1 THEN [S EXCEPT !.xl = RAdd(@, d), !.xh = RAdd(@, d)] ELSE [S EXCEPT !.yl = RAdd(@, d), !.yh = RAdd(@, d)]
Delta == RPow2(-12)
\* the Jacobian that carries the gradient is the derivative of the root with respect to the node
Jacobian == LET S == SetOf(c) IN
  k = 0 => \A n \in RNodes(S) : \A a \in {1, 2} :
    LET p == TLCEval(Back(Shifted(S, a, Delta), n[1], n[2], 0).r)
        m == TLCEval(Back(Shifted(S, a, RNeg(Delta)), n[1], n[2], 0).r)
        J == TLCEval(Back(S, n[1], n[2], 0).J)
    IN  \A q \in {1, 2} : Holds("jacobian", RNear(RDiv(RSub(p[q], m[q]), RMul(Two, Delta)), J[2 * (q - 1) + a],
                                                  RMul(RInt(200), RMul(S.dt, Sq(Delta)))))
\* the vortex keeps areas, so the root map does up to the order of the scheme
Area == LET S == SetOf(c) IN
  k = 0 => \A n \in RNodes(S) :
    LET J == TLCEval(Back(S, n[1], n[2], 0).J)
        det == RSub(RMul(J[1], J[4]), RMul(J[2], J[3]))
    IN  Holds("area", RNear(det, RInt(1), IF S.back = "RK3" THEN RMul(RInt(1500), RMul(Sq(S.dt), Sq(S.dt))) ELSE RMul(RInt(45), Sq(S.dt))))
\* the two schemes agree to first order
Consistent == LET S == SetOf(c) IN
  k = 0 => \A n \in RNodes(S) :
    LET a == TLCEval(Back([S EXCEPT !.back = "RK3"], n[1], n[2], 0).r)
        b == TLCEval(Back([S EXCEPT !.back = "Euler"], n[1], n[2], 0).r)
    IN  Holds("consistent", \A q \in {1, 2} : RNear(a[q], b[q], RMul(RInt(8), Sq(S.dt))))
\* whole numbers are walls of the vortex: no root crosses them, and corners stay
Walls == LET S == SetOf(c) IN
  k = 0 => \A n \in RNodes(S) :
    LET b == TLCEval(Back(S, n[1], n[2], 0))
        x == X(S, n[2])  y == Y(S, n[1])
        whole(v) == REq(v, RInt(RFloor(v)))
    IN  /\ Holds("wall x", whole(x) => RNear(b.r[1], x, RPow2(-80)))
        /\ Holds("wall y", whole(y) => RNear(b.r[2], y, RPow2(-80)))
        /\ Holds("not across x", RFloor(RSub(b.r[1], RPow2(-70))) <= RFloor(x) + 0 /\ RFloor(RAdd(b.r[1], RPow2(-70))) >= RFloor(x))
        /\ Holds("divergence", LET g == GradVel(S, x, y, RInt(0)) IN REq(RAdd(g[1], g[4]), RInt(0)))
\* no root is more than a cell away
Near == LET S == SetOf(c) IN
  k >= 0 => \A n \in RNodes(S) : LET r == TLCEval(Back(S, n[1], n[2], k).r) IN
    Holds("near", RLt(RAbs(RSub(r[1], X(S, n[2]))), Hx(S)) /\ RLt(RAbs(RSub(r[2], Y(S, n[1]))), Hy(S)))

\* monomials of x and y
RECURSIVE Pow(_, _)
Pow(x, a) == IF a = 0 THEN RInt(1) ELSE RMul(x, Pow(x, a - 1))
DPow(x, a) == IF a = 0 THEN RInt(0) ELSE RMul(RInt(a), Pow(x, a - 1))
Mono(S, a, b) ==
  LET row(g(_, _)) == TLCEval([i \in 1..S.ny |-> [j \in 1..S.nx |-> g(X(S, j - 1), Y(S, i - 1))]]) IN
  [ phi |-> row(LAMBDA x, y : RMul(Pow(x, a), Pow(y, b))), psix |-> row(LAMBDA x, y : RMul(DPow(x, a), Pow(y, b))),
    psiy |-> row(LAMBDA x, y : RMul(Pow(x, a), DPow(y, b))), psixy |-> row(LAMBDA x, y : RMul(DPow(x, a), DPow(y, b))) ]
Tiny == RPow2(-90)
\* interpolation reproduces what is cubic in each coordinate, in every cell
Cubic == LET S == SetOf(c) IN
  (k = 0 /\ c.dt = 4 /\ c.period = 4) => \A a \in {0, 1, 3} : \A b \in {0, 2, 3} : \A ci \in {0, S.ny - 2} : \A cj \in {0, S.nx - 2} :
    LET g == Mono(S, a, b)
        x == RAdd(X(S, cj), RMul(RFrac(1, 3), Hx(S)))  y == RAdd(Y(S, ci), RMul(RFrac(3, 5), Hy(S)))
        h == TLCEval(Herm(S, g, x, y, ci, cj))
    IN  Holds("cubic", RNear(h.v, RMul(Pow(x, a), Pow(y, b)), Tiny) /\ RNear(h.dx, RMul(DPow(x, a), Pow(y, b)), Tiny)
                       /\ RNear(h.dy, RMul(Pow(x, a), DPow(y, b)), Tiny))
\* the mixed derivative of third degree polynomials is exact where it is differenced centrally, of x^2 y and x y^2 everywhere
Differences == LET S == SetOf(c) IN
  (k = 0 /\ c.dt = 4 /\ c.period = 4) =>
    \A p \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<0, 2>>, <<2, 1>>, <<1, 2>>, <<2, 2>>} : \A n \in RNodes(S) :
      LET g == Mono(S, p[1], p[2])
          corner == n[1] \in {0, S.ny - 1} /\ n[2] \in {0, S.nx - 1}
      IN  (corner /\ p = <<2, 2>>) \/
          Holds("differences", RNear(Mixed(S, g.psix, g.psiy, n[1], n[2]), F(g.psixy, n[1], n[2]), Tiny))
=============================================================================
