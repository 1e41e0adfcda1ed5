------------------------------ MODULE GalsApp ------------------------------
(***************************************************************************)
(* The advection application: read inputs, put a circle on a 2D grid, and  *)
(* step it through a rotating velocity field from the start time to the    *)
(* end time.                                                               *)
(*                                                                         *)
(* State: [s |-> system, time |-> t, steps |-> k, done |-> BOOLEAN, in |-> *)
(* inputs].  A step at time t + dt evaluates the velocity there,           *)
(* differentiates phi (third order) into psi, makes (phi, psi) the         *)
(* previous level, and performs one semi-Lagrangian step.  The loop ends   *)
(* with the first step that reaches the end time.                          *)
(***************************************************************************)
EXTENDS GalsAlgebra

PositionsOf(g) == TLCEval([o \in 1..Size(g) |-> Pos(g, NodeAt(g, o))])

\* The time step: the given one, or half the smaller cell size of the two axes.
StepSize(in) == IF in.constant # "NO" THEN in.dt
                ELSE RMul(RFrac(1, 2), RMin(Dx(in.g, 1), Dx(in.g, 2)))
\* Reached the end: within the comparison tolerance of it, or past it.
Reached(in, t) == RLe(RAbs(RSub(t, in.end)), Eps) \/ RLt(in.end, t)

AppInputs(ev) == [ g |-> [dim |-> 2, n |-> ev.n, pad |-> ev.pad, lo |-> RVec(ev.lo), hi |-> RVec(ev.hi), exact |-> FALSE],
                   start |-> RStr(ev.start), end |-> RStr(ev.end), dt |-> RStr(ev.dt), constant |-> ev.constant,
                   vname |-> ev.vname, vcenter |-> RVec(ev.vcenter), vgradient |-> ev.vgradient,
                   lname |-> ev.lname, lcenter |-> RVec(ev.lcenter), radius |-> RStr(ev.radius) ]

AppFields(ev) == TLCEval([f \in Fields |-> RArr(ev.f[f])])

\* One step of the loop, decomposed into the library's operations.
LoopStepOk(g, in, s, t, dt) ==
  LET P  == PositionsOf(g)
      s1 == [s EXCEPT !.f.vel = t.f.vel, !.f.vgr = t.f.vgr]
      s2 == [s1 EXCEPT !.f.psi = t.f.psiP]
      s3 == [s2 EXCEPT !.f.phiP = t.f.phiP]
      s4 == [s3 EXCEPT !.f.psiP = t.f.psiP]
  IN  /\ RotationOk(s, s1, P, in.vname, in.vcenter, in.vgradient)
      /\ GradientOk(s1, s2, "third", "phi", "psi")
      /\ CopyOk(s2, s3, "phiP", "phi")
      /\ CopyOk(s3, s4, "psiP", "psi")
      /\ SemiLagrangianOk(s4, t, dt)

AppStepOk(app, ev) ==
  LET in == app.in
      g  == in.g
      t  == [g |-> g, f |-> AppFields(ev)]
      dt == RStr(ev.dt)
      tm == RStr(ev.time)
  IN  /\ Ck("no step after the end", ~app.done)
      /\ \A f \in Fields : Ck(<<"shape", f>>, WellFormed(g, f, t.f[f]))
      /\ Ck("time step size", RNear(dt, StepSize(in), RMul(RPow2(-45), RAbs(StepSize(in)))))
      /\ Ck("time advances by one step", RNear(tm, RAdd(app.time, dt), RMul(RPow2(-45), RAdd(RAbs(app.time), RAbs(dt)))))
      /\ LoopStepOk(g, in, app.s, t, dt)

\* The run ended: at the first time that reaches the end.
AppEndOk(app, ev) ==
  /\ Ck("at least one step", app.steps > 0)
  /\ Ck("ends when the end time is reached", app.done)
  /\ Ck("exit status", ev.status = 0)
  /\ Ck("steps reported", ev.steps = app.steps)
  /\ Ck(<<"nothing else on the disk changes", ev.touched>>, ev.touched = << >>)
  \* (the file it leaves is the last velocity at the nodes, in the text form of a field: see GalsTrace)

\* The state before the first step: the circle, everything else zero.
AppAfter(app, ev) ==
  IF ev.t = "app0"
  THEN [in |-> AppInputs(ev), s |-> [g |-> AppInputs(ev).g, f |-> AppFields(ev)],
        time |-> RStr(ev.start), steps |-> 0, done |-> FALSE]
  ELSE [in |-> app.in, s |-> [g |-> app.in.g, f |-> AppFields(ev)], time |-> RStr(ev.time), steps |-> app.steps + 1,
        done |-> Reached(app.in, RStr(ev.time))]

AppStartOk(ev) ==
  LET in == AppInputs(ev)
      z == ZeroSystem(in.g)
      t == [g |-> in.g, f |-> AppFields(ev)]
  IN  /\ \A f \in Fields : Ck(<<"shape", f>>, WellFormed(in.g, f, t.f[f]))
      /\ Ck("ghost layers for the third order gradient", in.g.pad >= 2)
      /\ CircleOk(z, t, PositionsOf(in.g), in.lname, in.lcenter, in.radius)
=============================================================================
