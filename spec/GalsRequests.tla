---------------------------- MODULE GalsRequests ----------------------------
(***************************************************************************)
(* Requests that the library or its application cannot fulfil.  Must(req)  *)
(* says what has to become of a request: "refuse" it (throw, or say so and *)
(* end the process), "do" it, or "either" where nothing is promised.       *)
(*                                                                         *)
(* A request of kind                                                       *)
(*   "vec3"  makes a 3-vector of a list of n numbers;                      *)
(*   "file"  reads a file whose sections are in order but for the flaws    *)
(*           listed: [sec, key, form], the value of that key has that form;*)
(*   "turn"  asks for the velocity named name on a grid of dimension dim   *)
(*           about a centre of n coordinates;                              *)
(*   "hole"  calls an overload that has no implementation;                 *)
(*   "run"   starts the application with no argument, the name of no file, *)
(*           or a complete file with the flaws listed.                     *)
(***************************************************************************)
EXTENDS GalsAlgebra

\* what the value of each key has to be
Needs == [ general  |-> [output_directory |-> "word"],
           grid     |-> [x_min |-> "number", x_max |-> "number", y_min |-> "number", y_max |-> "number", z_min |-> "number",
                         z_max |-> "number", cells |-> "three integers"],
           time     |-> [start |-> "number", end |-> "number", dt |-> "number", constant_dt |-> "word"],
           velocity |-> [name |-> "word", vector |-> "numbers", center |-> "numbers", gradient_scheme |-> "word"],
           levelset |-> [name |-> "word", center |-> "three numbers", radius |-> "number", gradient_scheme |-> "word"] ]
Scalars == {"word", "number"}
\* forms a value can have, and those that serve a need (a word is any scalar: a number will do)
Forms == {"absent", "map", "word", "number", "untidy", "list0", "list1", "list2", "list3", "list4", "reals3", "words3"}
Serves(need) ==
  CASE need = "word"           -> {"word", "number", "untidy"}
    [] need = "number"         -> {"number"}
    [] need = "numbers"        -> {"list0", "list1", "list2", "list3", "list4", "reals3"}
    [] need = "three numbers"  -> {"list3", "reals3"}
    [] need = "three integers" -> {"list3"}
Unsettled(need) == IF need = "three integers" THEN {"list4"} ELSE {}
\* flaws of the whole: a file that is no YAML, a section that is empty or a scalar
Broken == {"no yaml", "empty section", "scalar section"}
Spoils(f) == f.form \in Broken \/ f.form \notin Serves(Needs[f.sec][f.key]) \cup Unsettled(Needs[f.sec][f.key])
Doubtful(f) == f.form \notin Broken /\ f.form \in Unsettled(Needs[f.sec][f.key])

OfFlaws(F) == IF \E q \in DOMAIN F : Spoils(F[q]) THEN "refuse" ELSE IF \E q \in DOMAIN F : Doubtful(F[q]) THEN "either" ELSE "do"
\* a list of two coordinates or more has all that a rotation in the plane needs
Turns(dim, name, n) == name # "CIRCULAR" \/ (dim >= 2 /\ n >= 2)
Lists == [list0 |-> 0, list1 |-> 1, list2 |-> 2, list3 |-> 3, list4 |-> 4, reals3 |-> 3]
ShortCentre(F) == \E q \in DOMAIN F : F[q].sec = "velocity" /\ F[q].key = "center" /\ F[q].form \in {"list0", "list1"}

Must(r) ==
  CASE r.kind = "vec3" -> IF r.n = 3 THEN "do" ELSE "refuse"
    [] r.kind = "file" -> OfFlaws(r.flaws)
    [] r.kind = "turn" -> IF Turns(r.dim, r.name, r.n) THEN "do" ELSE "refuse"
    [] r.kind = "hole" -> "refuse"
    [] r.kind = "run"  -> IF r.argument \in {"none", "no file"} \/ ShortCentre(r.flaws) THEN "refuse" ELSE OfFlaws(r.flaws)

\* What a refusal is, and what it leaves.
Refused(o) == o.how = "threw" \/ (o.how = "ended" /\ o.said)
\* A file that was refused may have been read in part: every value is the old one or the one the file gives.
PartlyRead(cur, given, res) ==
  \A sec \in Sections : \A key \in DOMAIN KeysOf[sec] :
    Ck(<<"value old or as given", sec, key>>,
       \/ SameVal(KeysOf[sec][key], res[sec][key], cur[sec][key])
       \/ sec \in DOMAIN given /\ key \in DOMAIN given[sec] /\ SameVal(KeysOf[sec][key], res[sec][key], given[sec][key]))
=============================================================================
