------------------------------ MODULE MC_Linear ------------------------------
(* One-dimensional linear interpolation: one node set to one, and straight    *)
(* lines; at all eighths of every cell.  Every case is printed and replayed.  *)
EXTENDS GalsOps, Json

CONSTANTS N, Pad
VARIABLE q               \* [what, e, p]: spike at node e, or line of slope e; p: eighths of a cell from node First

G == [dim |-> 1, n |-> <<N, 1, 1>>, pad |-> Pad, lo |-> <<RInt(-3), RInt(0), RInt(0)>>, hi |-> <<RInt(N - 3), RInt(1), RInt(1)>>, exact |-> TRUE]
F == Map(G, LAMBDA o : <<IF q.what = "spike" THEN RInt(IF NodeAt(G, o)[1] = q.e THEN 1 ELSE 0)
                         ELSE RAdd(RInt(2), RMul(RInt(q.e), Pos(G, NodeAt(G, o))[1]))>>)
X == <<RAdd(PosAxis(G, 1, First(G, 1)), RMul(RFrac(q.p, 8), Dx(G, 1))), RInt(0), RInt(0)>>
Init == /\ q \in {[what |-> w, e |-> e, p |-> 0] : w \in {"spike", "line"}, e \in First(G, 1)..Last(G, 1)}
        /\ PrintT("REPLAY " \o ToJson(q))
Next == q.p < 8 * (Ext(G, 1) - 1) - 1 /\ q' = [q EXCEPT !.p = @ + 1]
Spec == Init /\ [][Next]_q

Holds(name, c) == Assert(c, <<name, q>>)
Good ==
  LET f == TLCEval(F)
      b == Base(G, 1, X[1])
      r == Linear(G, f, X).v
      lo == At(G, f, <<b, 0, 0>>)[1]
      hi == At(G, f, <<b + 1, 0, 0>>)[1]
      out == [o \in 1..Size(G) |-> IF o = 1 + G.pad THEN <<r>> ELSE <<RInt(0)>>]
      bad == [o \in 1..Size(G) |-> IF o = 1 + G.pad THEN <<RAdd(r, RFrac(1, 1000000))>> ELSE <<RInt(0)>>]
      zero == [o \in 1..Size(G) |-> <<RInt(0)>>]
  IN  /\ Holds("between the two nodal values", RLe(RMin(lo, hi), r) /\ RLe(r, RMax(lo, hi)))
      /\ Holds("nodal value", q.p % 8 = 0 => REq(r, lo))
      /\ Holds("straight lines", q.what = "line" => REq(r, RAdd(RInt(2), RMul(RInt(q.e), X[1]))))
      /\ Holds("accepted", LinearOk(G, f, <<X>>, zero, out))
      /\ Holds("strict", (REq(lo, RInt(0)) /\ REq(hi, RInt(0))) \/ ~LinearOk(G, f, <<X>>, zero, bad))
=============================================================================
