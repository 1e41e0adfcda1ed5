------------------------------ MODULE MC_Array ------------------------------
(* Up to three arrays of one element type, two distinguished nodes: every     *)
(* state they can reach, and every operation in each of them.  Arrays are     *)
(* values: an operation on one never shows in another.  Every transition is   *)
(* printed with a shortest way to reach it and replayed.                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Vals
VARIABLES arrs, hist      \* name -> <<value at node 1, value at node 2>>

Names == {"x", "y", "z"}
Zero == <<0, 0>>
Have == DOMAIN arrs
Calls ==
       {[op |-> "new",  a |-> n, b |-> n, i |-> 0, v |-> 0] : n \in Names \ Have}
  \cup {[op |-> "cpy",  a |-> n, b |-> m, i |-> 0, v |-> 0] : n \in Names \ Have, m \in Have}
  \cup {[op |-> "wr",   a |-> n, b |-> n, i |-> i, v |-> v] : n \in Have, i \in 1..2, v \in Vals}
  \cup {[op |-> "asg",  a |-> n, b |-> m, i |-> 0, v |-> 0] : n \in Have, m \in Have}
  \cup {[op |-> "del",  a |-> n, b |-> n, i |-> 0, v |-> 0] : n \in Have}
ArrDo(A, c) ==
  CASE c.op = "new" -> (c.a :> Zero) @@ A
    [] c.op = "cpy" -> (c.a :> A[c.b]) @@ A
    [] c.op = "wr"  -> [A EXCEPT ![c.a][c.i] = c.v]
    [] c.op = "asg" -> [A EXCEPT ![c.a] = A[c.b]]
    [] c.op = "del" -> [n \in DOMAIN A \ {c.a} |-> A[n]]

Init == arrs = << >> /\ hist = << >>
Next == \E c \in Calls : /\ arrs' = ArrDo(arrs, c)
                         /\ hist' = Append(hist, c)
                         /\ PrintT("REPLAY " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<arrs, hist>>
View == arrs

Shape == \A n \in Have : arrs[n] \in Vals \X Vals
Last == hist'[Len(hist')]
\* No operation on one array is seen in another.
Separate == [][ \A n \in (DOMAIN arrs \cap DOMAIN arrs') \ {Last.a} : arrs'[n] = arrs[n] ]_<<arrs, hist>>
\* A write is seen at its node and nowhere else; a new array is zero; a copy or an assignment equals its source.
Means == [][ LET c == Last IN
             /\ c.op = "wr" => arrs'[c.a][c.i] = c.v /\ arrs'[c.a][3 - c.i] = arrs[c.a][3 - c.i]
             /\ c.op = "new" => arrs'[c.a] = Zero
             /\ c.op \in {"cpy", "asg"} => arrs'[c.a] = arrs[c.b] /\ arrs'[c.b] = arrs[c.b] ]_<<arrs, hist>>
=============================================================================
