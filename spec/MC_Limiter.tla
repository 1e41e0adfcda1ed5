----------------------------- MODULE MC_Limiter -----------------------------
(* The gradient limiter on every edge with small integer data (all ties of    *)
(* its comparisons included): which control points it keeps, and what the     *)
(* limited cubic satisfies.  The pairs of nodal data are printed and replayed *)
(* along a line of cells that contains every pair.                            *)
EXTENDS GalsNum, Json

CONSTANTS M              \* data range over -M..M
VARIABLE q               \* <<f0, g0, f1, g1>>, chosen one after the other

Range == (-M)..M
Init == q = << >>
Next == /\ Len(q) < 4
        /\ \E i \in Range : q' = Append(q, i)
        /\ IF Len(q') = 4 /\ \A i \in 1..4 : q'[i] \in -2..2 THEN PrintT("REPLAY " \o ToJson(q')) ELSE TRUE
Spec == Init /\ [][Next]_q

\* slopes in units in which the control points are integers: c21 = f0 + g0, c12 = f1 - g1 for h = 1
C(f0, g0, f1, g1, lim) == Control(RInt(f0), RInt(3 * g0), RInt(f1), RInt(3 * g1), RInt(1), lim)
Neg(c) == [i \in 1..4 |-> RNeg(c[i])]
Same4(a, b) == \A i \in 1..4 : REq(a[i], b[i])
Holds(name, c) == Assert(c, <<name, q>>)
Good == Len(q) = 4 =>
  LET f0 == q[1]  g0 == q[2]  f1 == q[3]  g1 == q[4]
      p == C(f0, g0, f1, g1, FALSE)
      l == C(f0, g0, f1, g1, TRUE)
      b(e) == RDot(Bern(e), l)
      mn == RMin(RMin(l[1], l[2]), RMin(l[3], l[4]))
      mx == RMax(RMax(l[1], l[2]), RMax(l[3], l[4]))
  IN  /\ Holds("plain control points", Same4(p, <<RInt(f0), RInt(f0 + g0), RInt(f1 - g1), RInt(f1)>>))
      /\ Holds("end values kept", REq(l[1], RInt(f0)) /\ REq(l[4], RInt(f1)))
      \* either nothing changes, or one inner control point, or both are those of the straight line
      /\ Holds("what may change", REq(l[2], p[2]) \/ REq(l[3], p[3]) \/
               (REq(RSub(l[2], l[1]), RSub(l[3], l[2])) /\ REq(RSub(l[3], l[2]), RSub(l[4], l[3]))))
      /\ Holds("odd", Same4(C(-f0, -g0, -f1, -g1, TRUE), Neg(l)))
      /\ Holds("constants", f0 = f1 /\ g0 = 0 /\ g1 = 0 => \A i \in 1..4 : REq(l[i], RInt(f0)))
      /\ Holds("shift", Same4([i \in 1..4 |-> RAdd(RInt(1), l[i])], C(f0 + 1, g0, f1 + 1, g1, TRUE)))
      \* data of a straight line are kept
      /\ Holds("straight lines", f1 - f0 = 3 * g0 /\ g0 = g1 => Same4(l, p))
      \* the limited cubic stays within its control points
      /\ Holds("within control points", \A k \in 0..8 : RLe(mn, b(RFrac(k, 8))) /\ RLe(b(RFrac(k, 8)), mx))
      /\ Holds("ends", REq(b(RInt(0)), RInt(f0)) /\ REq(b(RInt(1)), RInt(f1)))
=============================================================================
