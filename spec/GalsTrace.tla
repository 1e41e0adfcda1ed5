----------------------------- MODULE GalsTrace -----------------------------
(***************************************************************************)
(* Trace validation: is a recorded history of calls on the real library a  *)
(* behaviour of the specification?                                         *)
(*                                                                         *)
(* The trace file (environment variable GALS_TRACE, one JSON object per    *)
(* line) holds many histories; each begins with a "begin" event.  An event *)
(* carries the call's arguments and what was observed after it: results    *)
(* and, under upd, the whole contents of every field that changed (fields  *)
(* not listed did not change).  An event is accepted iff the relation of   *)
(* GalsOps / GalsAlgebra / GalsApp for that call holds between the         *)
(* specification's state and the observed one, which then becomes the      *)
(* specification's state.                                                  *)
(***************************************************************************)
EXTENDS GalsOps, GalsAlgebra, GalsRequests, GalsApp, GalsFiles, GalsRef, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.GALS_TRACE)

VARIABLES l,        \* next event
          grids,    \* grid id   -> grid
          sys,      \* system id -> system
          arrs,     \* array id  -> [g, nc, d]
          inp,      \* input set id -> input set
          fs,       \* path -> "dir" or "file": what exists in the scratch directory
          root,     \* file helper -> the root directory it remembers
          app,      \* state of the application's time loop
          ref,      \* runs of the reference solvers: name -> [S, k -> frame]
          verdict   \* "running", "accepted" or "rejected"
vars == <<l, grids, sys, arrs, inp, fs, root, app, ref, verdict>>

None == << >>
Writers == {"alloc", "load", "copy", "grad", "interp", "euler", "sl", "alev", "avel"}
Upd(ev)  == IF "upd" \in DOMAIN ev THEN DOMAIN ev.upd ELSE {}          \* fields of the event's system that changed
UpdA(ev) == IF "updA" \in DOMAIN ev THEN DOMAIN ev.updA ELSE {}       \* stand-alone arrays that changed
\* Nothing outside the event's own system (or array) changes: other simulations and arrays are not disturbed.
Isolated(ev) == /\ Ck("other simulations untouched", "oth" \notin DOMAIN ev)
                /\ Ck("arrays untouched", ev.t \in {"awr", "aasg"} \/ UpdA(ev) = {})
                /\ Ck("fields untouched", ev.t \in Writers \/ Upd(ev) = {})

\* the observed system after an event
After(s, ev) == [g |-> s.g, f |-> TLCEval([f \in Fields |-> IF f \in Upd(ev) THEN RArr(ev.upd[f]) ELSE s.f[f]])]
Shapes(s, ev) == Ck("shape of observed fields", \A f \in Upd(ev) : f \in Fields /\ WellFormed(s.g, f, ev.upd[f]))

GridOf(ev) == [dim |-> ev.dim, n |-> ev.n, pad |-> ev.pad, lo |-> RVec(ev.lo), hi |-> RVec(ev.hi), exact |-> ev.exact]

\* the same nodes over another box
Reboxed(ev) == [grids[ev.s] EXCEPT !.lo = RVec(ev.lo), !.hi = RVec(ev.hi), !.exact = ev.exact]

-----------------------------------------------------------------------------
(* What a grid answers about itself. *)
GridOk(g, o) ==
  /\ Ck("dimension", o.dim = g.dim)
  /\ Ck("number of cells", o.n = g.n)
  /\ Ck("total cells", o.total = TotalCells(g))
  /\ Ck("padding", o.pad = g.pad)
  /\ Ck("mask", \A a \in Axes : o.mask[a] = Mask(g, a))
  /\ Ck("size", o.size = Size(g))
  /\ \A a \in 1..g.dim : LET d == RStr(o.dx[a])  q == RStr(o.odx[a]) IN
        /\ Ck(<<"cell size", a>>, RNear(d, Dx(g, a), RMul(RPow2(-49), Dx(g, a))))
        /\ Ck(<<"inverse cell size", a>>, RNear(RMul(q, Dx(g, a)), RInt(1), RPow2(-48)))

PosTol(g, a) == RMul(RPow2(-48), RAdd(RAdd(RAbs(g.lo[a]), RAbs(g.hi[a])), RMul(RInt(g.pad + 1), RAbs(Dx(g, a)))))
PosOk(g, P) ==
  /\ Ck("positions listed", Len(P) = Size(g))
  /\ \A o \in 1..Size(g) :
       LET nd == NodeAt(g, o) IN
       \A a \in Axes : AtNode(<<"position", a>>, nd, RNear(P[o][a], PosAxis(g, a, nd[a]), IF a <= g.dim THEN PosTol(g, a) ELSE RInt(0)))

ProbeOk(g, o) ==
  /\ Ck("nodes listed", Len(o.idx) = Size(g) /\ Len(o.idxv) = Size(g))
  /\ Ck("index within storage", \A q \in 1..Size(g) : o.idx[q] \in 0..Size(g)-1)
  /\ Ck("index is one-to-one", Cardinality({o.idx[q] : q \in 1..Size(g)}) = Size(g))
  /\ Ck("both index forms agree", o.idx = o.idxv)
  /\ PosOk(g, RArr(o.pos))
  /\ Ck("all position accessors agree", o.pos = o.posv /\ o.pos = o.posx)

\* Large grids: every storage slot, and the positions of some nodes (o.at: which).
PeekOk(g, o) ==
  /\ Ck("nodes listed", Len(o.idx) = Size(g) /\ Len(o.pos) = Len(o.at))
  /\ Ck("index within storage", \A q \in 1..Size(g) : o.idx[q] \in 0..Size(g)-1)
  /\ Ck("index is one-to-one", Cardinality({o.idx[q] : q \in 1..Size(g)}) = Size(g))
  /\ Ck("both index forms agree", o.idx = o.idxv)
  /\ \A q \in DOMAIN o.at :
       LET nd == NodeAt(g, o.at[q])  P == RVec(o.pos[q]) IN
       \A a \in Axes : AtNode(<<"position", a>>, nd, RNear(P[a], PosAxis(g, a, nd[a]), IF a <= g.dim THEN PosTol(g, a) ELSE RInt(0)))
  /\ Ck("all position accessors agree", o.pos = o.posv /\ o.pos = o.posx)

BaseOk(g, x, b) == \A a \in 1..g.dim : Ck(<<"enclosing node along axis", a, "of", x[a]>>, b[a] \in BaseAllowed(g, a, x[a]))

-----------------------------------------------------------------------------
(* Stand-alone arrays: value semantics.                                       *)
ArrAfter(ev) == [a \in DOMAIN arrs |-> IF a \in UpdA(ev) THEN [arrs[a] EXCEPT !.d = RArr(ev.updA[a])] ELSE arrs[a]]
ArrNewOk(ev) ==
  LET d == RArr(ev.o.data)
      g == grids[ev.s]
  IN  /\ Ck("array size", ev.o.size = Size(g) /\ Len(d) = Size(g))
      /\ Ck("array cells", ev.o.n = g.n)
      /\ Ck("array starts at zero", \A o \in DOMAIN d : Same(d[o], ZeroTuple(ev.nc)))
\* One component of one node written through one access path; the observation reads every node of every array through another.
ArrWriteOk(ev) ==
  LET A == arrs[ev.a]
      o == Ord(A.g, ev.nd)
      want == [A.d EXCEPT ![o][ev.c] = RStr(ev.v)]
      got == ArrAfter(ev)
  IN  /\ Ck("only this array changes", \A b \in DOMAIN arrs : b = ev.a \/ got[b].d = arrs[b].d)
      /\ Ck("exactly this component changes", got[ev.a].d = want)
ArrAssignOk(ev) ==
  LET got == ArrAfter(ev) IN
  /\ Ck("only the target changes", \A b \in DOMAIN arrs : b = ev.a \/ got[b].d = arrs[b].d)
  /\ Ck("target equals source", got[ev.a].d = arrs[ev.b].d)
\* Reading a whole array through each access path gives the state.
ArrReadOk(ev) ==
  LET A == arrs[ev.a] IN
  /\ Ck("read by indices", RArr(ev.o.ijk) = A.d)
  /\ Ck("read by node id", RArr(ev.o.vec) = A.d)
  /\ Ck("read by linear index", RArr(ev.o.lin) = A.d)
  /\ Ck("raw data", RArr(ev.o.raw) = A.d)
  /\ Ck("size", ev.o.size = Size(A.g))

\* A large array, every element written once with its number: each access path, a copy and an assigned array give them all.
VastOk(g, ev) ==
  LET N == Size(g) * ev.nc
      W == [q \in 1..N |-> q]
  IN  /\ Ck("array size", ev.o.size = Size(g))
      /\ Ck("array starts at zero", Len(ev.o.before) = N /\ \A q \in 1..N : ev.o.before[q] = 0)
      /\ \A p \in {"ijk", "vec", "lin", "raw", "copy", "assigned"} : Ck(<<"every element by itself", p>>, ev.o[p] = W)

-----------------------------------------------------------------------------
(* Text output: one line per interior node, i outermost, k innermost: the    *)
(* position, then the components, six significant digits.                     *)
TextTol(v) == RMul(RStr("6e-6"), RAbs(v))
TextOk(g, f, nc, lines) ==
  LET N == g.n[1] * g.n[2] * g.n[3]
      nd(q) == << (q - 1) \div (g.n[2] * g.n[3]), ((q - 1) \div g.n[3]) % g.n[2], (q - 1) % g.n[3] >>
  IN  /\ Ck("number of lines", Len(lines) = N)
      /\ \A q \in 1..N :
           LET L == RVec(lines[q])
               x == Pos(g, nd(q))
               v == At(g, f, nd(q))
           IN  /\ AtNode("tokens on the line", nd(q), Len(L) = 3 + nc)
               /\ \A a \in Axes : AtNode(<<"printed position", a>>, nd(q), RNear(L[a], x[a], RAdd(TextTol(x[a]), IF a <= g.dim THEN PosTol(g, a) ELSE RInt(0))))
               /\ \A c \in 1..nc : AtNode(<<"printed component", c>>, nd(q), RNear(L[3 + c], v[c], TextTol(v[c])))

(* Files: what the file helper answers about paths of a scratch directory.   *)
\* The directory itself, listed before and after the call, changed as the specification's did.
TreeOk(ev) ==
  LET new == IF ev.op \in {"root", "getroot"} THEN fs ELSE FsAfter(fs, ev)
      came == {<<ev.tree.came[q].path, ev.tree.came[q].kind>> : q \in DOMAIN ev.tree.came}
      went == {ev.tree.went[q] : q \in DOMAIN ev.tree.went}
  IN  /\ Ck(<<"appeared", came>>, came = {<<p, new[p]>> : p \in {x \in DOMAIN new : Kind(fs, x) # new[x]}})
      /\ Ck(<<"disappeared", went>>, went = DOMAIN fs \ DOMAIN new)
FsAnswerOk(ev) ==
  CASE ev.op = "root"    -> Ck("root directory", ev.o.ret = ev.path)
    [] ev.op = "getroot" -> Ck("root directory", ev.o.ret = IF ev.u \in DOMAIN root THEN root[ev.u] ELSE "")
    [] ev.op = "write"   -> IF ~CanWrite(fs, ev.path) THEN Ck("nothing written there", ev.o.lines = << >>)
                            ELSE /\ Ck("file written", ev.o.exists)
                                 /\ TextOk(sys[ev.s].g, sys[ev.s].f[ev.f], NComp(sys[ev.s].g.dim, ev.f), ev.o.lines)
    [] OTHER -> Ck(<<"file helper", ev.op, ev.path>>, ev.o.ret = FsAnswer(fs, ev.op, ev.path))
FsOk(ev) == FsAnswerOk(ev) /\ ("tree" \in DOMAIN ev => TreeOk(ev))

-----------------------------------------------------------------------------
(* Runs of the reference solvers.  ev.judge says which of a run's guarantees  *)
(* are decided; a frame once read is the state the next one starts from.      *)
RefSetting(ev) ==
  [ nx |-> ev.nx, ny |-> ev.ny, xl |-> RStr(ev.lim[1]), xh |-> RStr(ev.lim[2]), yl |-> RStr(ev.lim[3]), yh |-> RStr(ev.lim[4]),
    dt |-> RStr(ev.dt), tf |-> RStr(ev.tf), T |-> RStr(ev.T), option |-> ev.option, every |-> ev.every,
    scheme |-> ev.scheme, back |-> ev.back, xo |-> RStr(ev.c[1]), yo |-> RStr(ev.c[2]), rc |-> RStr(ev.c[3]) ]
Judged(ev, what) == \E q \in DOMAIN ev.judge : ev.judge[q] = what
RefRunOk(ev) ==
  /\ Judged(ev, "files") => DetailsOk(RefSetting(ev), ev.details) /\ FilesOk(RefSetting(ev), ev.shapes)
  /\ Judged(ev, "race") => Ck(<<"no two threads at one place without an order", ev.conflicts>>, ev.conflicts = << >>)
ReadFrame(ev) == TLCEval([q \in Quantities |-> RArrRound(ev.f[q], Fine)])
RefAfter(ev) ==
  IF ev.t = "ref0" THEN (ev.name :> [S |-> RefSetting(ev), fr |-> << >>]) @@ ref
  ELSE [ref EXCEPT ![ev.name].fr = (ev.k :> ReadFrame(ev)) @@ @]
RefFrameOk(ev) ==
  LET R == ref[ev.name]
      S == R.S
      h == ReadFrame(ev)
      stepped == ev.k - 1 \in DOMAIN R.fr
  IN  /\ Ck("frame complete", \A q \in Quantities : Len(ev.f[q]) = S.ny /\ \A i \in 1..S.ny : Len(ev.f[q][i]) = S.nx)
      /\ (Judged(ev, "init") /\ ev.k = 0) => InitOk(S, h)
      /\ Judged(ev, "vel") => VelOk(S, h, ev.k)
      /\ (Judged(ev, "mix") /\ ev.k > 0) => MixOk(S, h, ev.k)
      /\ (Judged(ev, "phi") /\ stepped) => PhiStepOk(S, R.fr[ev.k - 1], h, ev.k - 1)
      /\ (Judged(ev, "psi") /\ stepped) => PsiStepOk(S, R.fr[ev.k - 1], h, ev.k - 1)
      /\ Judged(ev, "same") => /\ Ck(<<"a step of the serial program", ev.k>>, ev.k \in DOMAIN ref[ev.like].fr)
                               /\ SameOk(S, ref[ev.like].fr[ev.k], h, ev.k)
RefEndOk(ev) ==
  LET R == ref[ev.name] IN
  Judged(ev, "same") \/ Judged(ev, "phi") \/ Judged(ev, "mix") \/ Judged(ev, "vel") \/ Judged(ev, "psi")
    => \E n \in Steps(R.S) : Ck("every frame due was printed", DOMAIN R.fr = FrameSteps(n, Every(R.S, n)))

-----------------------------------------------------------------------------
(* Requests that may be out of reach.  Each is made by a process of its own,  *)
(* a copy of the one that asks: ev.did is the call as that process recorded   *)
(* it, if it went on, ev.left what a caller finds after an exception.         *)
RECURSIVE Accept(_)
LeftOk(req, left) ==
  /\ Ck("no field changed by a refused request", "upd" \notin DOMAIN left /\ "oth" \notin DOMAIN left /\ "updA" \notin DOMAIN left)
  /\ \A s \in DOMAIN left.inp :
       IF "s" \in DOMAIN req /\ s = req.s THEN PartlyRead(inp[s], req.given, left.inp[s]) ELSE Ck("other inputs untouched", left.inp[s] = inp[s])
TryOk(ev) ==
  LET must == Must(ev.req)
      went == ev.o.how = "went on"
  IN  /\ Ck(<<"refused or carried out, no crash", ev.o.how>>, went \/ Refused(ev.o))
      /\ Ck(<<"refused", ev.req>>, must = "refuse" => ~went)
      /\ Ck(<<"carried out", ev.req>>, must = "do" => went)
      /\ (went /\ must = "do") => Isolated(ev.did) /\ Accept(ev.did)
      /\ ev.o.how = "threw" => LeftOk(ev.req, ev.left)
\* The application: what was in its directory afterwards that was not there before.
RunOk(ev) ==
  LET must == Must(ev.req) IN
  /\ Ck(<<"the run ends, refused or to its end", ev.o.how>>, ev.o.how \in {"threw", "ended"})
  /\ must = "refuse" => /\ Ck(<<"a refusal says so", ev.req>>, ev.o.said)
                        /\ Ck(<<"no output of a refused run", ev.req>>, ev.o.created = << >>)
  /\ must = "do" => Ck(<<"the run's output is there", ev.req>>, ev.o.how = "ended" /\ ev.o.complete)
Accept(ev) ==
  CASE ev.t = "begin" -> TRUE
    [] ev.t = "try"   -> TryOk(ev)
    [] ev.t = "run"   -> RunOk(ev)
    [] ev.t = "grid"  -> GridOk(GridOf(ev), ev.o)
    [] ev.t = "rebox" -> GridOk(Reboxed(ev), ev.o)
    [] ev.t = "probe" -> ProbeOk(grids[ev.s], ev.o)
    [] ev.t = "peek"  -> PeekOk(grids[ev.s], ev.o)
    [] ev.t = "vast"  -> VastOk(grids[ev.s], ev)
    [] ev.t = "base"  -> BaseOk(grids[ev.s], RVec(ev.x), ev.o.b)
    [] ev.t = "alloc" -> /\ Ck("all fields observed", Upd(ev) = Fields)
                         /\ AllocOk(grids[ev.s], After([g |-> grids[ev.s]], ev))
    [] ev.t = "load"  -> /\ Shapes(sys[ev.s], ev)
                         /\ LoadOk(sys[ev.s], After(sys[ev.s], ev), ev.f, RArr(ev.v))
    [] ev.t = "copy"  -> /\ Shapes(sys[ev.s], ev)
                         /\ CopyOk(sys[ev.s], After(sys[ev.s], ev), ev.dst, ev.src)
    [] ev.t = "grad"  -> /\ Shapes(sys[ev.s], ev)
                         /\ GradientOk(sys[ev.s], After(sys[ev.s], ev), ev.scheme, ev.src, ev.dst)
    [] ev.t = "interp" -> /\ Shapes(sys[ev.s], ev)
                          /\ InterpOk(sys[ev.s], After(sys[ev.s], ev), ev.n, RArr(ev.x))
    [] ev.t = "point" -> LET s == sys[ev.s] IN
                         LimPointOk(s.g, s.f.phiP, s.f.psiP, s.f.mixP, RVec(ev.x), ev.lim, RStr(ev.o.v), RVec(ev.o.d))
    [] ev.t = "lin"   -> /\ Ck("source unchanged", ev.o.src = ev.src)
                         /\ LinearOk(grids[ev.s], RArr(ev.src), RArr(ev.x), RArr(ev.out0), RArr(ev.o.out))
    [] ev.t = "euler" -> /\ Shapes(sys[ev.s], ev)
                         /\ EulerOk(sys[ev.s], After(sys[ev.s], ev), RStr(ev.dt))
    [] ev.t = "sl"    -> /\ Shapes(sys[ev.s], ev)
                         /\ SemiLagrangianOk(sys[ev.s], After(sys[ev.s], ev), RStr(ev.dt))
    [] ev.t = "alev"  -> /\ Shapes(sys[ev.s], ev)
                         /\ CircleOk(sys[ev.s], After(sys[ev.s], ev), RArr(ev.pos), ev.name, RVec(ev.c), RStr(ev.r))
    [] ev.t = "avel"  -> /\ Shapes(sys[ev.s], ev)
                         /\ RotationOk(sys[ev.s], After(sys[ev.s], ev), RArr(ev.pos), ev.name, RVec(ev.c), ev.gradient)
    [] ev.t = "arr"   -> ArrNewOk(ev)
    [] ev.t = "awr"   -> ArrWriteOk(ev)
    [] ev.t = "aasg"  -> ArrAssignOk(ev)
    [] ev.t = "ard"   -> ArrReadOk(ev)
    [] ev.t = "text"  -> TextOk(sys[ev.s].g, sys[ev.s].f[ev.f], NComp(sys[ev.s].g.dim, ev.f), ev.o.lines)
    [] ev.t = "alg"   -> AlgebraOk(ev)
    [] ev.t = "acpy"  -> /\ Ck("copy has the size", ev.o.size = Size(arrs[ev.b].g))
                         /\ Ck("copy equals source", RArr(ev.o.data) = arrs[ev.b].d)
    [] ev.t = "adel"  -> TRUE
    [] ev.t = "atxt"  -> TextOk(arrs[ev.a].g, arrs[ev.a].d, arrs[ev.a].nc, ev.o.lines)
    [] ev.t = "inp0"  -> TRUE
    [] ev.t = "inputs" -> InputsOk(inp[ev.s], ev.given, ev.o)
    [] ev.t = "fs"    -> FsOk(ev)
    [] ev.t = "threads" -> Ck(<<"no two threads at one place, one writing", ev.conflicts>>, ev.conflicts = << >>)
    [] ev.t = "app0"  -> AppStartOk(ev)
    [] ev.t = "app1"  -> AppStepOk(app, ev)
    [] ev.t = "app2"  -> AppEndOk(app, ev) /\ TextOk(app.in.g, app.s.f.vel, 3, ev.lines)
    [] ev.t = "ref0"  -> RefRunOk(ev)
    [] ev.t = "ref1"  -> RefFrameOk(ev)
    [] ev.t = "ref2"  -> RefEndOk(ev)
    [] OTHER -> Ck(<<"no such transition", ev.t>>, FALSE)

Loses(id) == [x \in DOMAIN sys \ {id} |-> sys[x]]
\* The specification's next state: what was observed, once accepted.
Step(ev) ==
  CASE ev.t = "begin" -> grids' = None /\ sys' = None /\ arrs' = None /\ inp' = None /\ fs' = None /\ root' = None /\ app' = None /\ ref' = None
    [] ev.t = "grid"  -> /\ grids' = (ev.s :> GridOf(ev)) @@ grids
                         /\ sys' = Loses(ev.s) /\ UNCHANGED <<arrs, inp, fs, root, app, ref>>
    [] ev.t = "rebox" -> /\ grids' = [grids EXCEPT ![ev.s] = Reboxed(ev)]
                         /\ sys' = [x \in DOMAIN sys |-> IF x = ev.s THEN [sys[x] EXCEPT !.g = Reboxed(ev)] ELSE sys[x]]
                         /\ UNCHANGED <<arrs, inp, fs, root, app, ref>>
    [] ev.t = "alloc" -> /\ sys' = (ev.s :> After([g |-> grids[ev.s]], ev)) @@ sys
                         /\ UNCHANGED <<grids, arrs, inp, fs, root, app, ref>>
    [] ev.t \in Writers \ {"alloc"} ->
                         /\ sys' = [sys EXCEPT ![ev.s] = After(sys[ev.s], ev)]
                         /\ UNCHANGED <<grids, arrs, inp, fs, root, app, ref>>
    [] ev.t = "arr"   -> /\ arrs' = (ev.a :> [g |-> grids[ev.s], nc |-> ev.nc, d |-> RArr(ev.o.data)]) @@ arrs
                         /\ UNCHANGED <<grids, sys, inp, fs, root, app, ref>>
    [] ev.t = "acpy"  -> /\ arrs' = (ev.a :> arrs[ev.b]) @@ arrs
                         /\ UNCHANGED <<grids, sys, inp, fs, root, app, ref>>
    [] ev.t = "adel"  -> /\ arrs' = [x \in DOMAIN arrs \ {ev.a} |-> arrs[x]]
                         /\ UNCHANGED <<grids, sys, inp, fs, root, app, ref>>
    [] ev.t \in {"awr", "aasg"} -> arrs' = ArrAfter(ev) /\ UNCHANGED <<grids, sys, inp, fs, root, app, ref>>
    [] ev.t \in {"inp0", "inputs"} -> inp' = (ev.s :> ev.o) @@ inp /\ UNCHANGED <<grids, sys, arrs, fs, root, app, ref>>
    [] ev.t = "fs"    -> /\ fs' = FsAfter(fs, ev)
                         /\ root' = IF ev.op = "root" THEN (ev.u :> ev.path) @@ root ELSE root
                         /\ UNCHANGED <<grids, sys, arrs, inp, app, ref>>
    [] ev.t \in {"app0", "app1"} -> app' = AppAfter(app, ev) /\ UNCHANGED <<grids, sys, arrs, inp, fs, root, ref>>
    [] ev.t \in {"ref0", "ref1"} -> ref' = RefAfter(ev) /\ UNCHANGED <<grids, sys, arrs, inp, fs, root, app>>
    [] OTHER -> UNCHANGED <<grids, sys, arrs, inp, fs, root, app, ref>>

Init == l = 1 /\ grids = None /\ sys = None /\ arrs = None /\ inp = None /\ fs = None /\ root = None /\ app = None /\ ref = None /\ verdict = "running"
Next ==
  /\ verdict = "running"
  /\ IF l > Len(Trace) THEN /\ verdict' = "accepted" /\ PrintT(<<"ACCEPTED", Len(Trace)>>)
                            /\ UNCHANGED <<l, grids, sys, arrs, inp, fs, root, app, ref>>
     ELSE IF Isolated(Trace[l]) /\ Accept(Trace[l]) THEN l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED verdict
     ELSE /\ PrintT(<<"REJECTED", l, Trace[l].t>>) /\ verdict' = "rejected"
          /\ UNCHANGED <<l, grids, sys, arrs, inp, fs, root, app, ref>>
Spec == Init /\ [][Next]_vars
=============================================================================
