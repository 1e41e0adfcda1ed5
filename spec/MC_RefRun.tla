------------------------------ MODULE MC_RefRun ------------------------------
(* Runs of the reference programs in one directory, one after another, any of  *)
(* which may be stopped at any point.  A program clears the seven files,       *)
(* prints the initial frame and details.txt, and then a frame after every      *)
(* step that is due.  With two ranks, rank 1 must leave the files alone.       *)
(* Whenever a run ends, the files hold its own frames, in order, and nothing   *)
(* of an earlier run.  Every complete history is printed and replayed.         *)
EXTENDS GalsRef, Json, TLC

CONSTANTS Runs, Steps1, Everys, Ranks, ReplayAll
VARIABLES h,        \* the runs so far, the last one being the current one: [n, option, every, ranks, cut]
          pc, t,    \* of the ranks: "clear", "first", "details", "step", "print", "end", "idle"
          dir       \* frames in the field files: <<[run, k], ...>>, and which run wrote details (0: none)

Cur == h[Len(h)]
Due(r, k) == Every([option |-> r.option, every |-> r.every], r.n) > 0 /\ k % Every([option |-> r.option, every |-> r.every], r.n) = 0
\* a directory another user left behind
Init == /\ h = << >> /\ pc = <<"idle", "idle">> /\ t = <<0, 0>>
        /\ dir \in {[frames |-> << >>, details |-> 0], [frames |-> << [run |-> 99, k |-> 0], [run |-> 99, k |-> 1] >>, details |-> 99]}

Begin == /\ \A p \in 1..2 : pc[p] \in {"idle", "end"}
         /\ Len(h) < Runs
         /\ \E n \in Steps1, o \in {1, 2}, e \in Everys, r \in Ranks :
              h' = Append(h, [n |-> n, option |-> o, every |-> e, ranks |-> r, cut |-> FALSE])
         /\ pc' = <<"clear", IF h'[Len(h')].ranks = 2 THEN "clear" ELSE "end">> /\ t' = <<0, 0>> /\ UNCHANGED dir
\* the machine goes down, or the user stops it
Cut == /\ pc[1] \notin {"idle", "end"} /\ Len(h) < Runs
       /\ h' = [h EXCEPT ![Len(h)].cut = TRUE] /\ pc' = <<"idle", "idle">> /\ UNCHANGED <<t, dir>>
Writer(p) == p = 1
Rank(p) ==
  /\ pc[p] \notin {"idle", "end"}
  /\ LET run == Len(h) IN
     CASE pc[p] = "clear" ->
            /\ dir' = IF Writer(p) THEN [frames |-> << >>, details |-> 0] ELSE dir
            /\ pc' = [pc EXCEPT ![p] = "first"] /\ UNCHANGED t
       [] pc[p] = "first" ->
            /\ dir' = IF Writer(p) THEN [dir EXCEPT !.frames = Append(@, [run |-> run, k |-> 0])] ELSE dir
            /\ pc' = [pc EXCEPT ![p] = "details"] /\ UNCHANGED t
       [] pc[p] = "details" ->
            /\ dir' = IF Writer(p) THEN [dir EXCEPT !.details = run] ELSE dir
            /\ pc' = [pc EXCEPT ![p] = IF Cur.n = 0 THEN "end" ELSE "step"] /\ UNCHANGED t
       [] pc[p] = "step" ->
            /\ (p = 1 /\ Cur.ranks = 2) => t[2] > t[1]          \* rank 0 needs what rank 1 sends
            /\ t' = [t EXCEPT ![p] = @ + 1] /\ UNCHANGED dir
            /\ pc' = [pc EXCEPT ![p] = IF p = 1 /\ Due(Cur, t[1] + 1) THEN "print" ELSE IF t[p] + 1 = Cur.n THEN "end" ELSE "step"]
       [] pc[p] = "print" ->
            /\ dir' = [dir EXCEPT !.frames = Append(@, [run |-> run, k |-> t[1]])]
            /\ pc' = [pc EXCEPT ![p] = IF t[p] = Cur.n THEN "end" ELSE "step"] /\ UNCHANGED t
  /\ UNCHANGED h
Ended == Len(h) > 0 /\ \A p \in 1..2 : pc[p] = "end"
Finish == /\ Len(h) = Runs /\ Ended /\ pc' = <<"idle", "idle">> /\ UNCHANGED <<h, t, dir>>
          /\ (ReplayAll \/ Cur.ranks = 1) => PrintT("REPLAY " \o ToJson(h))
Next == Begin \/ Cut \/ Rank(1) \/ Rank(2) \/ Finish
Spec == Init /\ [][Next]_<<h, pc, t, dir>> /\ WF_<<h, pc, t, dir>>(Rank(1) \/ Rank(2))

Wanted(r, run) == LET F0 == FrameSteps(r.n, Every([option |-> r.option, every |-> r.every], r.n))
                      RECURSIVE Sort(_)
                      Sort(A) == IF A = {} THEN << >> ELSE LET m == CHOOSE a \in A : \A b \in A : a <= b IN <<[run |-> run, k |-> m]>> \o Sort(A \ {m})
                  IN  Sort(F0)
Complete == Ended => dir.frames = Wanted(Cur, Len(h)) /\ dir.details = Len(h)
Fresh == pc[1] \in {"details", "step", "print"} => \A m \in DOMAIN dir.frames : dir.frames[m].run = Len(h)
InOrder == \A a, b \in DOMAIN dir.frames : (a < b /\ dir.frames[a].run = dir.frames[b].run) => dir.frames[a].k < dir.frames[b].k
LastShown == (Ended /\ Cur.option # 1 /\ Cur.n > 0) => Len(dir.frames) = 2
Ends == \A q \in 1..Runs : (Len(h) = q /\ pc[1] = "clear") ~> (pc[1] \in {"end", "idle"})
=============================================================================
