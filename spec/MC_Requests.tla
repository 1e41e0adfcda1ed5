---------------------------- MODULE MC_Requests ----------------------------
(* A request gathers flaws one after another; then it is made.  The process   *)
(* that makes it goes on, or ends.  Output exists only after a run that was   *)
(* carried out to its end.  Every request is printed and made of the real     *)
(* code.                                                                      *)
EXTENDS GalsRequests, Json

CONSTANTS MostFlaws, Kinds
VARIABLES req, state, output

NoFlaws == << >>
Keys == {<<sec, key>> : sec \in Sections, key \in UNION {DOMAIN Needs[s] : s \in Sections}}
Flaws == {[sec |-> k[1], key |-> k[2], form |-> f] : k \in {k \in Keys : k[2] \in DOMAIN Needs[k[1]]}, f \in Forms}
         \cup {[sec |-> sec, key |-> "", form |-> f] : sec \in Sections, f \in {"empty section", "scalar section"}}
         \cup {[sec |-> "", key |-> "", form |-> "no yaml"]}
Asked ==
  {[kind |-> "vec3", n |-> n] : n \in 0..5}
  \cup {[kind |-> "file", flaws |-> NoFlaws]}
  \cup {[kind |-> "turn", dim |-> d, name |-> s, n |-> n] : d \in 1..3, s \in {"CIRCULAR", "NOBODY"}, n \in 0..3}
  \cup {[kind |-> "hole", what |-> "hermite", dim |-> d] : d \in 1..3} \cup {[kind |-> "hole", what |-> "linear", dim |-> 1]}
  \cup {[kind |-> "run", argument |-> a, flaws |-> NoFlaws] : a \in {"none", "no file", "file"}}

Init == req \in {r \in Asked : r.kind \in Kinds} /\ state = "asked" /\ output = FALSE
Gather == /\ state = "asked" /\ req.kind \in {"file", "run"} /\ (req.kind = "run" => req.argument = "file")
          /\ Len(req.flaws) < MostFlaws
          /\ \E f \in Flaws : /\ \A q \in DOMAIN req.flaws : req.flaws[q].sec # f.sec
                              /\ req' = [req EXCEPT !.flaws = Append(@, f)]
          /\ UNCHANGED <<state, output>>
CarryOut == /\ state = "asked" /\ Must(req) # "refuse" /\ PrintT("REPLAY " \o ToJson(req))
         /\ state' = "done" /\ output' = (req.kind = "run") /\ UNCHANGED req
Refuse == /\ state = "asked" /\ Must(req) # "do" /\ (Must(req) = "either" \/ PrintT("REPLAY " \o ToJson(req)))
          /\ state' \in {"threw", "ended"} /\ UNCHANGED <<req, output>>
Next == Gather \/ CarryOut \/ Refuse
Spec == Init /\ [][Next]_<<req, state, output>>

Total == Must(req) \in {"do", "refuse", "either"}
NoOutputOfRefused == state \in {"threw", "ended"} => ~output
\* one more flaw never makes a refused request acceptable, nor do flaws in another order
Monotone == [][req' # req /\ Must(req) = "refuse" => Must(req') = "refuse"]_<<req, state, output>>
Unordered == req.kind \in {"file", "run"} /\ Len(req.flaws) = 2 => Must(req) = Must([req EXCEPT !.flaws = <<@[2], @[1]>>])
\* an application run is refused at least where reading its file is
RunNeedsFile == req.kind = "run" /\ req.argument = "file" /\ Must([kind |-> "file", flaws |-> req.flaws]) = "refuse" => Must(req) = "refuse"
\* a key in order is a flaw of no request
Harmless == req.kind = "file" /\ Len(req.flaws) = 1 /\ Must(req) = "do" =>
              \E f \in Forms : req.flaws[1].form = f /\ f \in Serves(Needs[req.flaws[1].sec][req.flaws[1].key])
=============================================================================
