----------------------------- MODULE MC_Algebra -----------------------------
(* The small algebra on every pair of operands from a small set, ties and     *)
(* zeros included, and (bi)linear operations on unit operands, which          *)
(* determine them.  The relation used on traces accepts the defined result    *)
(* and no other; the laws of the operations hold.  Every case is printed and  *)
(* replayed, with doubles and with integers.                                  *)
EXTENDS GalsAlgebra, Json

CONSTANTS Vals            \* components of the 3-vectors, + 2
VARIABLE q                 \* [op, kind, n, i, j, a, b, x, y]: x, y operands, chosen component by component

V == {v - 2 : v \in Vals}
VecOps == {"min", "mag", "sub", "mulv", "eq"}
Lens(op) == [x |-> 3, y |-> IF op \in {"min", "mag"} THEN 0 ELSE 3]
Unit(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
Zeros(n) == [k \in 1..n |-> 0]
\* the cases that are given whole
Whole ==    {[op |-> "muls", kind |-> "v", i |-> 0, j |-> 0, x |-> Unit(3, k), y |-> <<s>>] : k \in 1..3, s \in V}
       \cup {[op |-> "set", kind |-> "v", i |-> k, j |-> 0, x |-> <<5, 6, 7>>, y |-> <<s>>] : k \in 1..3, s \in V}
       \cup {[op |-> "set", kind |-> "m", i |-> k, j |-> 0, x |-> [m \in 1..9 |-> m], y |-> <<s>>] : k \in 1..9, s \in V}
       \cup {[op |-> "setrc", kind |-> "m", i |-> k, j |-> l, x |-> [m \in 1..9 |-> m], y |-> <<s>>] : k \in 0..2, l \in 0..2, s \in V}
       \cup {[op |-> "at", kind |-> "m", i |-> 0, j |-> 0, x |-> Unit(9, k), y |-> << >>] : k \in 1..9}
       \cup {[op |-> "make", kind |-> "m", i |-> 0, j |-> 0, x |-> Unit(9, k), y |-> << >>] : k \in 1..9}
       \cup {[op |-> "muls", kind |-> "m", i |-> 0, j |-> 0, x |-> Unit(9, k), y |-> <<s>>] : k \in 1..9, s \in V}
       \cup {[op |-> "dot", kind |-> "m", i |-> 0, j |-> 0, x |-> Unit(9, k), y |-> Unit(3, l)] : k \in 1..9, l \in 1..3}
       \cup {[op |-> p, kind |-> "m", i |-> 0, j |-> 0, x |-> Unit(9, k), y |-> Unit(9, l)] : k \in 1..9, l \in 1..9, p \in {"sub", "eq", "assign"}}
       \cup {[op |-> p, kind |-> "v", i |-> 0, j |-> 0, x |-> Unit(3, k), y |-> Unit(3, l)] : k \in 1..3, l \in 1..3, p \in {"assign"}}
       \cup {[op |-> "divv", kind |-> "v", i |-> 0, j |-> 0, x |-> [m \in 1..3 |-> 6 * Unit(3, k)[m]], y |-> [m \in 1..3 |-> IF m = l THEN s ELSE 1]] :
                k \in 1..3, l \in 1..3, s \in {-3, -2, -1, 1, 2, 3}}
Complete == IF q.op \in VecOps /\ q.kind = "v" THEN Len(q.x) = 3 /\ Len(q.y) = Lens(q.op).y ELSE TRUE
Complete1(p) == IF p.op \in VecOps /\ p.kind = "v" THEN Len(p.x) = 3 /\ Len(p.y) = Lens(p.op).y ELSE TRUE
Out(p) == IF Complete1(p) THEN PrintT("REPLAY " \o ToJson(p)) ELSE TRUE

Init == /\ q \in {[op |-> p, kind |-> "v", i |-> 0, j |-> 0, x |-> << >>, y |-> << >>] : p \in VecOps} \cup Whole
        /\ Out(q)
Next == /\ ~Complete
        /\ \E v \in V : q' = IF Len(q.x) < 3 THEN [q EXCEPT !.x = Append(@, v)] ELSE [q EXCEPT !.y = Append(@, v)]
        /\ Out(q')
Spec == Init /\ [][Next]_q

\* the result by definition
Min3(x) == CHOOSE m \in {x[1], x[2], x[3]} : m <= x[1] /\ m <= x[2] /\ m <= x[3]
R3(F(_)) == [k \in 1..Len(q.x) |-> F(k)]
Result == CASE q.op = "min" -> <<Min3(q.x)>>
            [] q.op = "sub" -> R3(LAMBDA k : q.x[k] - q.y[k])
            [] q.op = "mulv" -> R3(LAMBDA k : q.x[k] * q.y[k])
            [] q.op = "muls" -> R3(LAMBDA k : q.x[k] * q.y[1])
            [] q.op = "set" -> [q.x EXCEPT ![q.i] = q.y[1]]
            [] q.op = "setrc" -> [q.x EXCEPT ![3 * q.i + q.j + 1] = q.y[1]]
            [] q.op \in {"at", "make"} -> q.x
            [] q.op = "assign" -> q.y
            \* the matrix with one unit entry in row i, column j, applied from the right to the unit vector i, is the unit vector j
            [] q.op = "dot" -> LET k == CHOOSE m \in 1..9 : q.x[m] = 1
                                   row == 1 + (k - 1) \div 3
                                   col == 1 + ((k - 1) % 3)
                               IN  IF q.y[row] = 1 THEN Unit(3, col) ELSE Zeros(3)
Strs(s) == [k \in 1..Len(s) |-> ToString(s[k])]
Ev(r, bool) == [op |-> q.op, ty |-> "d", n |-> Len(q.x), i |-> q.i, j |-> q.j, a |-> Strs(q.x), b |-> Strs(q.y),
                o |-> [r |-> r, bool |-> bool, a |-> Strs(q.x), b |-> Strs(q.y)]]
Plain(r) == Ev(Strs(r), FALSE)
Holds(name, c) == Assert(c, <<name, q>>)
SqSum == q.x[1] * q.x[1] + q.x[2] * q.x[2] + q.x[3] * q.x[3]
Good == Complete =>
  CASE q.op = "eq" -> LET e == q.x = q.y IN
                      Holds("equality", AlgebraOk(Ev(<< >>, e)) /\ ~AlgebraOk(Ev(<< >>, ~e)))
    [] q.op = "mag" -> \* the magnitude of a multiple of a unit vector; otherwise bounded by the largest and the sum of the components
                       Holds("magnitude", \A m \in 0..6 : AlgebraOk(Plain(<<m>>)) <=> m * m = SqSum)
    [] q.op = "divv" -> LET r == [k \in 1..3 |-> ToString((q.x[k] \div (IF q.y[k] < 0 THEN -q.y[k] ELSE q.y[k])) * (IF q.y[k] < 0 THEN -1 ELSE 1))]
                        IN  Holds("quotient", AlgebraOk(Ev(r, FALSE)) /\ ~AlgebraOk(Ev([r EXCEPT ![1] = "17"], FALSE)))
    [] OTHER -> LET r == Result IN
                /\ Holds("accepted", AlgebraOk(Plain(r)))
                /\ Holds("no other", \A k \in 1..Len(r) : ~AlgebraOk(Plain([r EXCEPT ![k] = @ + 1])) /\ ~AlgebraOk(Plain([r EXCEPT ![k] = @ - 1])))
                /\ Holds("operands", ~AlgebraOk([Plain(r) EXCEPT !.o.a = Strs([q.x EXCEPT ![1] = @ + 1])]))
                /\ Holds("minimum", q.op = "min" => \A k \in 1..3 : r[1] <= q.x[k])
                /\ Holds("difference", q.op = "sub" => \A k \in 1..Len(r) : r[k] + q.y[k] = q.x[k])
=============================================================================
