------------------------------ MODULE MC_Time ------------------------------
(* The time loop of the application, start, end and step being any whole      *)
(* number of eighths: it ends, with the first time that reaches the end, and  *)
(* after as many steps as that takes.  Every case is printed and replayed as  *)
(* a run of the program.                                                      *)
EXTENDS GalsApp, Json

CONSTANTS Starts, Spans, Dts       \* in eighths; Starts + 16 (no negative numbers in configuration files)
VARIABLES c, t, steps, done        \* c: the case [start, end, dt, constant]; t: the time in eighths

G == [dim |-> 2, n |-> <<2, 2, 1>>, pad |-> 2, lo |-> <<RInt(0), RInt(0), RInt(0)>>, hi |-> <<RInt(1), RInt(2), RInt(1)>>, exact |-> TRUE]
In == [g |-> G, start |-> RFrac(c.start, 8), end |-> RFrac(c.end, 8), dt |-> RFrac(c.dt, 8), constant |-> c.constant]
Eighths(r) == RFloor(RMul(RInt(8), r))
Dt == Eighths(StepSize(In))          \* (the automatic step is a quarter here)

Init == /\ c \in {[start |-> s - 16, end |-> s - 16 + p, dt |-> d, constant |-> k] : s \in Starts, p \in Spans, d \in Dts, k \in {"YES", "NO"}}
        /\ t = c.start /\ steps = 0 /\ done = FALSE
        /\ PrintT("REPLAY " \o ToJson(c))
Next == /\ ~done
        /\ t' = t + Dt /\ steps' = steps + 1 /\ UNCHANGED c
        /\ done' = Reached(In, RFrac(t', 8))
Spec == Init /\ [][Next]_<<c, t, steps, done>> /\ WF_<<c, t, steps, done>>(Next)

CeilDiv(x, y) == (x + y - 1) \div y
Max(x, y) == IF x > y THEN x ELSE y
StepIsGiven == c.constant = "YES" => Dt = c.dt
Automatic == c.constant = "NO" => Dt = 2
Clock == t = c.start + steps * Dt
NotBefore == done => t >= c.end
NotAfter == done => steps = 1 \/ t - Dt < c.end
Count == done => steps = Max(1, CeilDiv(c.end - c.start, Dt))
NeverLate == ~done /\ steps > 0 => t < c.end
Ends == <>done
=============================================================================
