----------------------------- MODULE MC_Fields -----------------------------
(* The analytical fields at integer offsets from their centre: the signed     *)
(* distance of the circle (or sphere) of every small radius, and the rigid    *)
(* rotation.  Every case is printed and replayed.                             *)
EXTENDS GalsOps, Json

CONSTANTS M, Radii
VARIABLE q            \* [dim, r, e]: radius, offset chosen coordinate by coordinate

Grd(d) == [dim |-> d, n |-> <<1, 1, 1>>, pad |-> 1, lo |-> <<RInt(0), RInt(0), RInt(0)>>, hi |-> <<RInt(1), RInt(2), RInt(3)>>, exact |-> TRUE]
G == Grd(q.dim)
C == <<RInt(3), RFrac(-1, 2), RInt(7)>>
\* the positions handed in: the offset at the interior node, something else at the ghosts
Here == [a \in Axes |-> RAdd(C[a], RInt(q.e[a]))]
P == TLCEval([o \in 1..Size(G) |-> IF IsInterior(G, NodeAt(G, o)) THEN Here ELSE <<RInt(o), RInt(1), RInt(2)>>])
O == Ord(G, <<0, 0, 0>>)
Sys == [ZeroSystem(G) EXCEPT !.f.phi = Map(G, LAMBDA o : <<RInt(o + 100)>>), !.f.vel = Map(G, LAMBDA o : [i \in 1..3 |-> RInt(o + i)]),
                             !.f.vgr = Map(G, LAMBDA o : [i \in 1..9 |-> RInt(o + i)])]
With(s, v) == [s EXCEPT !.f.phi[O] = <<v>>]

Init == q \in {[dim |-> d, r |-> r, e |-> << >>] : d \in 1..3, r \in Radii}
Next == /\ Len(q.e) < 3
        /\ \E i \in (-M)..M : q' = [q EXCEPT !.e = Append(@, i)]
        /\ IF Len(q'.e) = 3 THEN PrintT("REPLAY " \o ToJson(q')) ELSE TRUE
Spec == Init /\ [][Next]_q

Q == q.e[1] * q.e[1] + q.e[2] * q.e[2] + q.e[3] * q.e[3]
\* a square root by Newton's method: eight steps give far more than double precision on these numbers
RECURSIVE Newton(_, _, _)
Newton(x, s, k) == IF k = 0 THEN x ELSE Newton(TLCEval(RMul(RFrac(1, 2), RAdd(x, RDiv(s, x)))), s, k - 1)
Root0 == IF Q = 0 THEN RInt(0) ELSE Newton(RInt(1 + Q \div 4), RInt(Q), 8)
Tiny == RFrac(1, 1000000)
Ok(s, v) == CircleOk(s, With(s, v), P, "CIRCLE", C, RInt(q.r))
RotOk(s, t) == RotationOk(s, t, P, "CIRCULAR", C, "ANALYTICAL")
Neg3(v) == [i \in 1..3 |-> RNeg(v[i])]
Holds(name, c) == Assert(c, <<name, q>>)
Circle ==
  LET s == TLCEval(Sys)
      v == RSub(Root0, RInt(q.r))
  IN  /\ Holds("the distance is accepted", Ok(s, v))
      /\ Holds("nothing else is", ~Ok(s, RAdd(v, Tiny)) /\ ~Ok(s, RSub(v, Tiny)))
      /\ Holds("not the mirrored distance", Q = 0 \/ ~Ok(s, RSub(RNeg(Root0), RInt(q.r))))
      /\ Holds("not the squared one", Q \in {0, 1} \/ ~Ok(s, RSub(RInt(Q), RInt(q.r))))
      /\ Holds("inside is negative", Q < q.r * q.r => RLt(v, RInt(0)))
      /\ Holds("outside is positive", Q > q.r * q.r => RLt(RInt(0), v))
      /\ Holds("zero on the circle", Q = q.r * q.r => RLt(RAbs(v), RPow2(-60)))
      /\ Holds("other names change nothing", CircleOk(s, s, P, "SQUARE", C, RInt(q.r)) /\ (RNear(v, s.f.phi[O][1], Tiny) \/ ~CircleOk(s, With(s, v), P, "SQUARE", C, RInt(q.r))))
      /\ Holds("ghosts are left alone", ~CircleOk(s, [With(s, v) EXCEPT !.f.phi[1] = <<RInt(0)>>], P, "CIRCLE", C, RInt(q.r)))
Rotation ==
  LET s == TLCEval(Sys)
      t == TLCEval(DoRotation(s, P, C))
      v == t.f.vel[O]
      w == t.f.vgr[O]
      e == [a \in Axes |-> RInt(q.e[a])]
      flat == q.e[1] = 0 /\ q.e[2] = 0
  IN  /\ Holds("accepted", RotOk(s, t))
      /\ Holds("perpendicular to the offset", REq(RDot(v, e), RInt(0)))
      /\ Holds("rigid", REq(RDot(v, v), RMul(RMul(Omega, Omega), RInt(q.e[1] * q.e[1] + q.e[2] * q.e[2]))))
      /\ Holds("counter-clockwise", flat \/ RLt(RInt(0), RSub(RMul(e[1], v[2]), RMul(e[2], v[1]))))
      /\ Holds("the gradient is that of the velocity", \A i \in 1..3 : REq(v[i], RSum([j \in 1..3 |-> RMul(w[3 * (i - 1) + j], e[j])])))
      /\ Holds("antisymmetric", \A i \in 1..3 : \A j \in 1..3 : REq(w[3 * (i - 1) + j], RNeg(w[3 * (j - 1) + i])))
      /\ Holds("not clockwise", flat \/ ~RotOk(s, [t EXCEPT !.f.vel[O] = Neg3(v)]))
      /\ Holds("no third component", ~RotOk(s, [t EXCEPT !.f.vel[O][3] = Tiny]))
      /\ Holds("not the transposed gradient", ~RotOk(s, [t EXCEPT !.f.vgr[O] = [i \in 1..9 |-> RNeg(w[i])]]))
      /\ Holds("another scheme leaves the gradient", RotationOk(s, [t EXCEPT !.f.vgr = s.f.vgr], P, "CIRCULAR", C, "CENTRAL") /\ ~RotationOk(s, t, P, "CIRCULAR", C, "CENTRAL"))
Good == Len(q.e) = 3 => Circle /\ Rotation
=============================================================================
