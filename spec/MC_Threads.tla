----------------------------- MODULE MC_Threads -----------------------------
(* Two threads that each make calls on a simulation of their own; both may     *)
(* use one grid, which they only read.  A call goes through the nodes one by   *)
(* one; at each it reads what it needs into its own stack and then writes its  *)
(* result, and between any two accesses the other thread may run.  Nothing     *)
(* orders the two threads, so any place one of them writes must be untouched   *)
(* by the other for all time; then each ends where it would have ended alone.  *)
(* Scratch = TRUE (a control: TLC must find the fault) keeps what was read in  *)
(* one place shared by all calls of one kind.  Every pair of programs is       *)
(* printed and replayed on the library.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, Calls, Scratch
VARIABLES c,        \* [prog: thread -> <<op, ...>>, one: both on one grid]
          pc,       \* thread -> [k: call, o: node, at: "read" or "write"]
          mem,      \* place -> number
          acc,      \* thread -> [rd, wr]: the places it ever touched
          stack     \* thread -> what it read
vars == <<c, pc, mem, acc, stack>>

T == {1, 2}
Ops == {"grad", "vgrad", "snap", "sl", "euler", "circle", "rotation", "interp"}
Reads == [grad |-> {"phi"}, vgrad |-> {"vel"}, snap |-> {"phi", "psi"}, sl |-> {"phiP", "psiP", "mixP", "vel", "vgr"},
          euler |-> {"phiP", "vel"}, circle |-> {}, rotation |-> {}, interp |-> {"phiP", "psiP", "mixP"}]
Writes == [grad |-> {"psi"}, vgrad |-> {"vgr"}, snap |-> {"phiP", "psiP"}, sl |-> {"phi", "psi", "phiI", "psiI"},
           euler |-> {"phi"}, circle |-> {"phi"}, rotation |-> {"vel", "vgr"}, interp |-> {"phiI", "psiI"}]
Fields == {"phi", "psi", "mixP", "phiP", "psiP", "vel", "vgr", "phiI", "psiI"}
GridOf(t) == IF c.one THEN 0 ELSE t
Places == {<<"field", t, f, o>> : t \in T, f \in Fields, o \in 1..Nodes} \cup {<<"grid", t, "x", o>> : t \in 0..2, o \in 1..Nodes}
          \cup {<<"static", 0, op, 0>> : op \in Ops}
Near(o) == {x \in 1..Nodes : x - o \in {-1, 0, 1}}
\* what a call reads at node o: the neighbours' data, and the positions
In(t, op, o) == {<<"field", t, f, x>> : f \in Reads[op], x \in Near(o)} \cup {<<"grid", GridOf(t), "x", x>> : x \in Near(o)}
Out(t, op, o) == {<<"field", t, f, o>> : f \in Writes[op]}
RECURSIVE Sum(_, _)
Sum(m, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN (m[p] + Sum(m, S \ {p})) % 97
Kept(op) == <<"static", 0, op, 0>>

Start == [p \in Places |-> IF p[1] = "field" THEN (7 * p[2] + 3 * p[4]) % 11 ELSE p[4]]
Init == /\ c \in [prog : [T -> UNION {[1..n -> Ops] : n \in Calls}], one : BOOLEAN]
        /\ pc = [t \in T |-> [k |-> 1, o |-> 1, at |-> "read"]]
        /\ mem = Start /\ acc = [t \in T |-> [rd |-> {}, wr |-> {}]] /\ stack = [t \in T |-> 0]
        /\ PrintT("REPLAY " \o ToJson(c))
Running(t) == pc[t].k <= Len(c.prog[t])
Op(t) == c.prog[t][pc[t].k]
Read(t) ==
  /\ Running(t) /\ pc[t].at = "read"
  /\ LET S == In(t, Op(t), pc[t].o)  v == Sum(mem, S) IN
     /\ stack' = [stack EXCEPT ![t] = v]
     /\ mem' = IF Scratch THEN [mem EXCEPT ![Kept(Op(t))] = v] ELSE mem
     /\ acc' = [acc EXCEPT ![t] = [rd |-> @.rd \cup S, wr |-> IF Scratch THEN @.wr \cup {Kept(Op(t))} ELSE @.wr]]
  /\ pc' = [pc EXCEPT ![t].at = "write"] /\ UNCHANGED c
Write(t) ==
  /\ Running(t) /\ pc[t].at = "write"
  /\ LET W == Out(t, Op(t), pc[t].o)  v == (IF Scratch THEN mem[Kept(Op(t))] ELSE stack[t]) + 1 IN
     /\ mem' = [p \in Places |-> IF p \in W THEN v ELSE mem[p]]
     /\ acc' = [acc EXCEPT ![t].wr = @ \cup W]
  /\ pc' = [pc EXCEPT ![t] = IF pc[t].o < Nodes THEN [@ EXCEPT !.o = @ + 1, !.at = "read"] ELSE [k |-> @.k + 1, o |-> 1, at |-> "read"]]
  /\ UNCHANGED <<c, stack>>
Next == \E t \in T : Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

\* a thread by itself
RECURSIVE Alone(_, _, _, _)
Alone(t, m, k, o) ==
  IF k > Len(c.prog[t]) THEN m
  ELSE LET op == c.prog[t][k]  v == Sum(m, In(t, op, o)) + 1
           m2 == TLCEval([p \in Places |-> IF p \in Out(t, op, o) THEN v ELSE m[p]])
       IN  IF o < Nodes THEN Alone(t, m2, k, o + 1) ELSE Alone(t, m2, k + 1, 1)
Mine(t, m) == [p \in {x \in Places : x[1] = "field" /\ x[2] = t} |-> m[p]]

NoConflict == \A t, u \in T : t # u => acc[t].wr \cap (acc[u].rd \cup acc[u].wr) = {}
AsAlone == (\A t \in T : ~Running(t)) => \A t \in T : Mine(t, mem) = Mine(t, Alone(t, Start, 1, 1))
GridKept == \A p \in Places : p[1] = "grid" => mem[p] = Start[p]
=============================================================================
