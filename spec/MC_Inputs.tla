----------------------------- MODULE MC_Inputs -----------------------------
(* Reading input files with any sections into either of two sets of inputs,   *)
(* Depth files one after the other.  A section holds what the last file that  *)
(* has it gave to this set, and what was there before if none had it.  Every  *)
(* sequence is printed and replayed.                                          *)
EXTENDS GalsAlgebra, Json

CONSTANTS Depth, Sets
VARIABLES val, hist        \* val[set][section]: number of the file that gave it, 0 for none

Value(k) == [general |-> [output_directory |-> ToString(k)],
             grid |-> [x_min |-> ToString(k), x_max |-> ToString(k + 1), y_min |-> ToString(k + 2), y_max |-> ToString(k + 3),
                       z_min |-> ToString(k + 4), z_max |-> ToString(k + 5), nx |-> k, ny |-> k + 1, nz |-> k + 2],
             time |-> [start |-> ToString(k), end |-> ToString(k + 1), dt |-> ToString(k + 2), constant_dt |-> ToString(k)],
             velocity |-> [name |-> ToString(k), vector |-> <<ToString(k), ToString(k), ToString(k)>>,
                           center |-> <<ToString(k + 1), ToString(k), ToString(k)>>, gradient_scheme |-> ToString(k + 1)],
             levelset |-> [name |-> ToString(k), center |-> <<ToString(k), ToString(k + 3), ToString(k)>>, radius |-> ToString(k), gradient_scheme |-> ToString(k)]]
Full(v) == [sec \in Sections |-> Value(10 * v[sec])[sec]]
Given(S, k) == [sec \in S |-> Value(10 * k)[sec]]

Init == val = [s \in Sets |-> [sec \in Sections |-> 0]] /\ hist = << >>
Next == /\ Len(hist) < Depth
        /\ \E s \in Sets, S \in SUBSET Sections :
             /\ val' = [val EXCEPT ![s] = [sec \in Sections |-> IF sec \in S THEN Len(hist) + 1 ELSE @[sec]]]
             /\ hist' = Append(hist, [s |-> s, secs |-> S])
        /\ IF Len(hist') = Depth THEN PrintT("REPLAY " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<val, hist>>

\* the last file that gave this section to this set
Latest(s, sec) == LET K == {k \in 1..Len(hist) : hist[k].s = s /\ sec \in hist[k].secs} IN
                  IF K = {} THEN 0 ELSE CHOOSE k \in K : \A j \in K : j <= k
LastWins == \A s \in Sets : \A sec \in Sections : val[s][sec] = Latest(s, sec)
TheCall == hist'[Len(hist')]
\* the relation used on traces accepts this, and nothing that differs in one section
Related == [][ /\ InputsOk(Full(val[TheCall.s]), Given(TheCall.secs, Len(hist')), Full(val'[TheCall.s]))
               /\ \A sec \in Sections : ~InputsOk(Full(val[TheCall.s]), Given(TheCall.secs, Len(hist')), Full([val'[TheCall.s] EXCEPT ![sec] = 7]))
               /\ \A s \in Sets \ {TheCall.s} : val'[s] = val[s] ]_<<val, hist>>
=============================================================================
