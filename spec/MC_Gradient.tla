----------------------------- MODULE MC_Gradient -----------------------------
(* Both difference schemes on small grids of every dimension, for data that   *)
(* determine a linear operator: one node set to one ("spike"), and monomials. *)
(* The schemes are exact on polynomials of degree 2 (central) and 3 (third    *)
(* order) along each axis, write the interior only, look at their stencil     *)
(* only, and the relation used on traces accepts exactly this result.         *)
(* Every case is printed and replayed.                                        *)
EXTENDS GalsOps, Json

CONSTANTS N3,      \* cells along each axis of the three-dimensional grids
          Schemes, \* subset of {"central", "third"}
          Vecs     \* subset of BOOLEAN: gradients of scalars, of vectors
VARIABLE q         \* [dim, scheme, vec, c, what, e]: a case, e chosen coordinate by coordinate

Grd(d, scheme) ==
  [dim |-> d, n |-> <<IF d = 3 THEN N3 ELSE 3, IF d = 3 THEN N3 ELSE IF d = 2 THEN 2 ELSE 1, IF d = 3 THEN N3 ELSE 1>>, pad |-> Reach(scheme),
   lo |-> <<RInt(-1), RInt(0), RFrac(1, 2)>>,
   hi |-> <<RAdd(RInt(-1), RMul(RFrac(1, 2), RInt(IF d = 3 THEN N3 ELSE 3))), RInt(IF d = 3 THEN N3 ELSE IF d = 2 THEN 2 ELSE 1),
            RAdd(RFrac(1, 2), RMul(RFrac(1, 4), RInt(IF d = 3 THEN N3 ELSE 1)))>>, exact |-> TRUE]
Range(k, a) == IF k.what = "mono" THEN (IF a <= k.dim THEN 0..3 ELSE {0})
               ELSE First(Grd(k.dim, k.scheme), a)..Last(Grd(k.dim, k.scheme), a)

RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN RInt(1) ELSE RMul(x, Pow(x, e - 1))
Mono(x, e) == RMul(Pow(x[1], e[1]), RMul(Pow(x[2], e[2]), Pow(x[3], e[3])))
DMono(x, e, a) == IF e[a] = 0 THEN RInt(0) ELSE RMul(RInt(e[a]), Mono(x, [e EXCEPT ![a] = @ - 1]))

G == Grd(q.dim, q.scheme)
Datum1(nd) == IF q.what = "spike" THEN RInt(IF nd = q.e THEN 1 ELSE 0) ELSE Mono(Pos(G, nd), q.e)
Src == IF q.vec THEN "vel" ELSE "phi"
Dst == IF q.vec THEN "vgr" ELSE "psi"
\* what is there before: a pattern that shows what is left alone
Sys == LET z == ZeroSystem(G) IN
       [z EXCEPT !.f[Src] = Map(G, LAMBDA o : IF q.vec THEN [c \in 1..3 |-> IF c = q.c THEN Datum1(NodeAt(G, o)) ELSE RInt(0)]
                                              ELSE <<Datum1(NodeAt(G, o))>>),
                 !.f[Dst] = Map(G, LAMBDA o : [i \in 1..NComp(G.dim, Dst) |-> RInt(o + 7 * i)])]
Entry(a) == IF q.vec THEN 3 * (q.c - 1) + a ELSE a

Init == q \in {[dim |-> d, scheme |-> s, vec |-> v, c |-> c, what |-> w, e |-> << >>] :
                 d \in 1..3, s \in Schemes, v \in Vecs, c \in 1..3, w \in {"mono", "spike"}}
        /\ q.c <= (IF q.vec THEN q.dim ELSE 1)
Next == /\ Len(q.e) < 3
        /\ \E i \in Range(q, Len(q.e) + 1) : q' = [q EXCEPT !.e = Append(@, i)]
        /\ IF Len(q'.e) = 3 THEN PrintT("REPLAY " \o ToJson(q')) ELSE TRUE
Spec == Init /\ [][Next]_q

Order(scheme) == IF scheme = "central" THEN 2 ELSE 3
Exact(t) == q.what = "mono" =>
  \A nd \in Interior(G) : \A a \in 1..G.dim :
     q.e[a] <= Order(q.scheme) => REq(At(G, t.f[Dst], nd)[Entry(a)], DMono(Pos(G, nd), q.e, a))
InteriorOnly(s, t) ==
  /\ \A f \in Fields \ {Dst} : t.f[f] = s.f[f]
  /\ \A o \in 1..Size(G) : ~IsInterior(G, NodeAt(G, o)) => t.f[Dst][o] = s.f[Dst][o]
\* a spike is seen along the axes only, and not farther than the stencil reaches
Stencil(t) == q.what = "spike" =>
  \A nd \in Interior(G) : \A a \in 1..G.dim :
     LET d == q.e[a] - nd[a]
         onaxis == \A b \in Axes : b = a \/ q.e[b] = nd[b]
     IN  REq(At(G, t.f[Dst], nd)[Entry(a)], RInt(0)) \/
         (onaxis /\ d \in (IF q.scheme = "central" THEN {-1, 1} ELSE {-2, -1, 0, 1}))
\* a result that is wrong in one entry by a millionth of the datum is not accepted
Strict(s, t) == q.what = "spike" /\ IsInterior(G, q.e) =>
  LET o == Ord(G, q.e) IN
  \A a \in 1..G.dim : ~GradientOk(s, [t EXCEPT !.f[Dst][o][Entry(a)] = RAdd(@, RFrac(1, 1000000))], q.scheme, Src, Dst)
Holds(name, c) == Assert(c, <<name, q>>)
Good == Len(q.e) = 3 =>
  LET s == TLCEval(Sys)
      t == TLCEval(DoGradient(s, q.scheme, Src, Dst))
  IN  /\ Holds("exact on polynomials", Exact(t))
      /\ Holds("interior only", InteriorOnly(s, t))
      /\ Holds("stencil", Stencil(t))
      /\ Holds("accepted", GradientOk(s, t, q.scheme, Src, Dst))
      /\ Holds("strict", Strict(s, t))
=============================================================================
