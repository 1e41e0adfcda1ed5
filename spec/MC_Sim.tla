------------------------------ MODULE MC_Sim ------------------------------
(* Two simulations on grids of one shape and different boxes, and every       *)
(* sequence of Depth calls on them, interleaved in every way.  Each           *)
(* simulation ends where its own calls alone take it; a step moves only the   *)
(* level set, a snapshot only the previous level, and so on.  Every sequence  *)
(* is printed and replayed.                                                   *)
EXTENDS GalsOps, Json

CONSTANTS Depth, Ids
VARIABLE h         \* the calls so far: <<[s, op], ...>>

Grd(id) == [dim |-> 1, n |-> <<3, 1, 1>>, pad |-> 2, lo |-> <<RInt(IF id = "A" THEN 0 ELSE -1), RInt(0), RInt(0)>>,
            hi |-> <<RInt(IF id = "A" THEN 3 ELSE 5), RInt(1), RInt(1)>>, exact |-> TRUE]
Dt == RFrac(1, 2)
Start(id) ==
  LET g == Grd(id)
      z == ZeroSystem(g)
      val(f, o, i) == RInt(((3 * o + 5 * i + (IF id = "A" THEN 1 ELSE 2)) * (o + 2)) % 7)
      fill(f) == Map(g, LAMBDA o : [i \in 1..NComp(1, f) |-> IF i = 1 THEN val(f, o, i) ELSE RInt(0)])
  IN  [z EXCEPT !.f.phi = fill("phi"), !.f.psi = fill("psi"), !.f.phiP = fill("phiP"), !.f.psiP = fill("psiP"),
                !.f.vel = Map(g, LAMBDA o : <<RMul(Dx(g, 1), RInt(IF o % 2 = 0 THEN 1 ELSE -1)), RInt(0), RInt(0)>>),
                !.f.vgr = Map(g, LAMBDA o : [i \in 1..9 |-> IF i = 1 THEN RInt(o % 3) ELSE RInt(0)])]
Ops == {"grad", "vgrad", "snap", "sl", "euler"}
Do(s, op) == CASE op = "grad"  -> DoGradient(s, "third", "phi", "psi")
               [] op = "vgrad" -> DoGradient(s, "central", "vel", "vgr")
               [] op = "snap"  -> DoCopy(DoCopy(s, "phiP", "phi"), "psiP", "psi")
               [] op = "sl"    -> DoSemiLagrangian(s, Dt)
               [] op = "euler" -> DoEuler(s, Dt)
Writes(op) == CASE op = "grad" -> {"psi"} [] op = "vgrad" -> {"vgr"} [] op = "snap" -> {"phiP", "psiP"}
                [] op = "sl" -> {"phi", "psi", "phiI", "psiI"} [] op = "euler" -> {"phi"}

Init == h = << >>
Next == /\ Len(h) < Depth
        /\ \E s \in Ids, op \in Ops : h' = Append(h, [s |-> s, op |-> op])
        /\ IF Len(h') = Depth THEN PrintT("REPLAY " \o ToJson(h')) ELSE TRUE
Spec == Init /\ [][Next]_h

\* the joint state after the calls, and one simulation's state after its own calls
RECURSIVE Joint(_, _)
Joint(J, k) == IF k > Len(h) THEN J ELSE Joint(TLCEval([J EXCEPT ![h[k].s] = Do(@, h[k].op)]), k + 1)
Both0 == [i \in Ids |-> Start(i)]
RECURSIVE Alone(_, _, _)
Alone(s, id, k) == IF k > Len(h) THEN s ELSE Alone(IF h[k].s = id THEN TLCEval(Do(s, h[k].op)) ELSE s, id, k + 1)
Holds(name, c) == Assert(c, <<name, h>>)
Good ==
  LET J == Joint(Both0, 1) IN
  /\ Holds("isolated", \A i \in Ids : Alone(Start(i), i, 1) = J[i])
  \* repeating the last call changes nothing: every call is a function of state it does not write
  /\ Holds("idempotent", Len(h) > 0 => LET c == h[Len(h)] IN c.op = "grad" \/ Do(J[c.s], c.op) = J[c.s])
  /\ Holds("frame", Len(h) > 0 => LET c == h[Len(h)]  t == Do(J[c.s], c.op) IN \A f \in Fields \ Writes(c.op) : t.f[f] = J[c.s].f[f])
  /\ Holds("ghosts", \A i \in Ids : \A o \in 1..Size(Grd(i)) : IsInterior(Grd(i), NodeAt(Grd(i), o)) \/
                       \A f \in {"phi", "psi", "phiI", "psiI", "vel", "vgr"} : J[i].f[f][o] = Start(i).f[f][o])
=============================================================================
