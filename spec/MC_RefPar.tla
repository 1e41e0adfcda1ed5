------------------------------ MODULE MC_RefPar ------------------------------
(* The parallel reference programs: one or two ranks, each with a team of      *)
(* threads that share the rows of a loop in any way and meet at its end.       *)
(* With two ranks, each traces back the characteristics of its half of the     *)
(* columns, and rank 1 sends its half to rank 0 in five messages per step,     *)
(* which wait in a channel of some capacity (none: the sender waits for the    *)
(* receiver).  Rank 0 then updates every row and differences the new           *)
(* gradients.  Data is represented by the step it belongs to.  Whatever the    *)
(* schedule, every read finds data of the right step, no message is taken for  *)
(* another, and every run ends.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rows, MaxSteps, Teams, Caps, RankCounts
VARIABLES c,          \* [ranks, team, cap]
          ph,         \* phase of each rank
          st,         \* step of each rank
          todo,       \* rows of the current loop not yet taken, per rank
          busy,       \* row each thread has read the data of and not yet written, 0: none; per rank and thread
          chan,       \* messages under way: <<[what, step], ...>>
          adv, cel,   \* [rank][half][row] -> step; halves 1, 2
          mas, tmp, mix, mmx    \* [row] -> step: master and new values, new mixed derivative and the master's
vars == <<c, ph, st, todo, busy, chan, adv, cel, mas, tmp, mix, mmx>>

Rs == 1..Rows
P  == 1..c.ranks                        \* rank 0 is number 1
Half(p) == IF c.ranks = 1 THEN {1, 2} ELSE {p}
Zero == [r \in Rs |-> 0]
Init == /\ c \in [ranks : RankCounts, team : Teams, cap : Caps]
        /\ ph = [p \in 1..2 |-> IF p > c.ranks THEN "end" ELSE "adv"] /\ st = <<0, 0>>
        /\ todo = <<Rs, Rs>> /\ busy = [p \in 1..2 |-> [w \in 1..c.team |-> 0]] /\ chan = << >>
        /\ adv = [p \in 1..2 |-> [q \in 1..2 |-> Zero]] /\ cel = adv
        /\ mas = Zero /\ tmp = Zero /\ mix = Zero /\ mmx = Zero
        /\ PrintT("REPLAY " \o ToJson(c))

Loops == {"adv", "cel", "upd", "mix"}
After1 == [adv |-> "getA1", getA1 |-> "getA2", getA2 |-> "cel", cel |-> "getC1", getC1 |-> "getC2", getC2 |-> "getC3", getC3 |-> "upd",
           upd |-> "mix", mix |-> "feed"]
After2 == [adv |-> "putA1", putA1 |-> "putA2", putA2 |-> "cel", cel |-> "putC1", putC1 |-> "putC2", putC2 |-> "putC3"]
Goes(p) == IF c.ranks = 1 THEN CASE ph[1] = "adv" -> "cel" [] ph[1] = "cel" -> "upd" [] OTHER -> After1[ph[1]]
           ELSE IF p = 1 THEN After1[ph[1]] ELSE After2[ph[2]]
Expect(cond, what) == Assert(cond, <<what, c, st, ph>>)

\* a thread takes a row and reads what the loop needs for it ...
Take(p, w) ==
  /\ ph[p] \in Loops /\ busy[p][w] = 0 /\ todo[p] # {}
  /\ \E r \in todo[p] :
       /\ todo' = [todo EXCEPT ![p] = @ \ {r}] /\ busy' = [busy EXCEPT ![p][w] = r]
       /\ CASE ph[p] = "cel" -> Expect(\A q \in Half(p) : adv[p][q][r] = st[p] + 1, "root of this step")
            [] ph[p] = "upd" -> /\ Expect(\A q \in 1..2 : adv[1][q][r] = st[p] + 1 /\ cel[1][q][r] = st[p] + 1, "roots and cells of this step")
                                /\ Expect(\A x \in Rs : mas[x] = st[p] /\ mmx[x] = st[p], "values of the last step")
            [] ph[p] = "mix" -> Expect(\A x \in Rs : (x - r) \in {-1, 0, 1} => tmp[x] = st[p] + 1, "gradients of this step")
            [] OTHER -> TRUE
  /\ UNCHANGED <<c, ph, st, chan, adv, cel, mas, tmp, mix, mmx>>
\* ... and writes the row
Put(p, w) ==
  /\ busy[p][w] # 0
  /\ LET r == busy[p][w] IN
     /\ busy' = [busy EXCEPT ![p][w] = 0]
     /\ adv' = IF ph[p] = "adv" THEN [adv EXCEPT ![p] = [q \in 1..2 |-> IF q \in Half(p) THEN [@[q] EXCEPT ![r] = st[p] + 1] ELSE @[q]]] ELSE adv
     /\ cel' = IF ph[p] = "cel" THEN [cel EXCEPT ![p] = [q \in 1..2 |-> IF q \in Half(p) THEN [@[q] EXCEPT ![r] = st[p] + 1] ELSE @[q]]] ELSE cel
     /\ tmp' = IF ph[p] = "upd" THEN [tmp EXCEPT ![r] = st[p] + 1] ELSE tmp
     /\ mix' = IF ph[p] = "mix" THEN [mix EXCEPT ![r] = st[p] + 1] ELSE mix
  /\ UNCHANGED <<c, ph, st, todo, chan, mas, mmx>>
\* the end of a loop: all rows done
Join(p) ==
  /\ ph[p] \in Loops /\ todo[p] = {} /\ \A w \in 1..c.team : busy[p][w] = 0
  /\ ph' = [ph EXCEPT ![p] = Goes(p)] /\ todo' = [todo EXCEPT ![p] = Rs]
  /\ UNCHANGED <<c, st, busy, chan, adv, cel, mas, tmp, mix, mmx>>

Message(x) == CASE x \in {"putA1", "getA1"} -> "A1" [] x \in {"putA2", "getA2"} -> "A2" [] x \in {"putC1", "getC1"} -> "C1"
                [] x \in {"putC2", "getC2"} -> "C2" [] OTHER -> "C3"
Puts == {"putA1", "putA2", "putC1", "putC2", "putC3"}
Gets == {"getA1", "getA2", "getC1", "getC2", "getC3"}
Step2 == IF ph[2] = "putC3" THEN /\ st' = [st EXCEPT ![2] = @ + 1]
                                 /\ ph' = [ph EXCEPT ![2] = IF st[2] + 1 = MaxSteps THEN "end" ELSE "adv"]
         ELSE UNCHANGED st /\ ph' = [ph EXCEPT ![2] = Goes(2)]
Send == /\ ph[2] \in Puts /\ Len(chan) < c.cap
        /\ chan' = Append(chan, [what |-> Message(ph[2]), step |-> st[2]])
        /\ Step2 /\ UNCHANGED <<c, todo, busy, adv, cel, mas, tmp, mix, mmx>>
Placed(m) == /\ Expect(m.what = Message(ph[1]) /\ m.step = st[1], "the message expected")
             /\ adv' = IF m.what = "A2" THEN [adv EXCEPT ![1][2] = [r \in Rs |-> m.step + 1]] ELSE adv
             /\ cel' = IF m.what = "C3" THEN [cel EXCEPT ![1][2] = [r \in Rs |-> m.step + 1]] ELSE cel
Receive == /\ ph[1] \in Gets /\ chan # << >>
           /\ Placed(chan[1]) /\ chan' = Tail(chan)
           /\ ph' = [ph EXCEPT ![1] = Goes(1)] /\ UNCHANGED <<c, st, todo, busy, mas, tmp, mix, mmx>>
\* without room in the channel, sender and receiver meet
Meet == /\ c.cap = 0 /\ ph[2] \in Puts /\ ph[1] \in Gets
        /\ Placed([what |-> Message(ph[2]), step |-> st[2]]) /\ UNCHANGED chan
        /\ st' = IF ph[2] = "putC3" THEN [st EXCEPT ![2] = @ + 1] ELSE st
        /\ ph' = <<Goes(1), IF ph[2] = "putC3" THEN (IF st[2] + 1 = MaxSteps THEN "end" ELSE "adv") ELSE Goes(2)>>
        /\ UNCHANGED <<c, todo, busy, mas, tmp, mix, mmx>>
Feed == /\ ph[1] = "feed"
        /\ Expect(\A r \in Rs : tmp[r] = st[1] + 1 /\ mix[r] = st[1] + 1, "every row was updated")
        /\ mas' = tmp /\ mmx' = mix /\ st' = [st EXCEPT ![1] = @ + 1]
        /\ ph' = [ph EXCEPT ![1] = IF st[1] + 1 = MaxSteps THEN "end" ELSE "adv"]
        /\ UNCHANGED <<c, todo, busy, chan, adv, cel, tmp, mix>>
Next == \/ \E p \in P : Join(p) \/ \E w \in 1..c.team : Take(p, w) \/ Put(p, w)
        \/ Send \/ Receive \/ Meet \/ Feed
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneWriter == \A p \in P : \A v, w \in 1..c.team : (v # w /\ busy[p][v] # 0) => busy[p][v] # busy[p][w]
InStep == c.ranks = 2 => st[2] >= st[1]
Done == \A p \in 1..2 : ph[p] = "end"
Result == Done => \A r \in Rs : mas[r] = MaxSteps /\ mmx[r] = MaxSteps
NoLetterLeft == Done => chan = << >>
Moving == ENABLED Next \/ Done
Ends == <>Done
=============================================================================
