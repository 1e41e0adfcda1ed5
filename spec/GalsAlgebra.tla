---------------------------- MODULE GalsAlgebra ----------------------------
(***************************************************************************)
(* Small fixed-size algebra (3-vectors, 3x3 matrices, n-vectors) and the   *)
(* reading of input files.                                                 *)
(***************************************************************************)
EXTENDS GalsOps

E50 == RPow2(-50)
Close(v, e, mag) == RNear(v, e, RMul(E50, mag))
Vec(n, F(_)) == [i \in 1..n |-> F(i)]
VEq(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : REq(v[i], w[i])
Eps == RStr("1e-10")             \* components closer than this compare equal

\* ev: op, ty ("d" doubles | "i" integers), a, b operands, o.r result, o.a / o.b the operands after the call
AlgebraOk(ev) ==
  LET a == RVec(ev.a)
      b == RVec(ev.b)
      r == RVec(ev.o.r)
      n == Len(a)
      near(v, e, m) == IF ev.ty = "i" THEN REq(v, e) ELSE Close(v, e, m)
      each(F(_), M(_)) == Len(r) = n /\ \A i \in 1..n : near(r[i], F(i), M(i))
      bool == ev.o.bool
      differ(i) == RLt(Eps, RAbs(RSub(a[i], b[i])))
  IN /\ Ck("operands unchanged", VEq(RVec(ev.o.a), a) /\ VEq(RVec(ev.o.b), b))
     /\ Ck(<<ev.op, ev.ty>>,
        CASE ev.op = "make"  -> VEq(r, a)
          [] ev.op = "zero"  -> Len(r) = ev.n /\ \A i \in DOMAIN r : REq(r[i], RInt(0))
          [] ev.op = "size"  -> VEq(r, <<RInt(ev.n)>>)
          [] ev.op = "assign" -> VEq(r, b)
          \* a, then component ev.i (1-based) set to b[1]: the others keep their values
          [] ev.op = "set"   -> VEq(r, [a EXCEPT ![ev.i] = b[1]])
          [] ev.op = "min"   -> Len(r) = 1 /\ (\E i \in 1..n : REq(r[1], a[i])) /\ \A i \in 1..n : RLe(r[1], a[i])
          [] ev.op = "mag"   -> Len(r) = 1 /\ RLe(RInt(0), r[1]) /\
                                LET q == RDot(a, a) IN NearSqrt(r[1], q, RMul(RPow2(-48), r[1])) 
          [] ev.op = "sub"   -> each(LAMBDA i : RSub(a[i], b[i]), LAMBDA i : RAdd(RAbs(a[i]), RAbs(b[i])))
          [] ev.op = "mulv"  -> each(LAMBDA i : RMul(a[i], b[i]), LAMBDA i : RAbs(RMul(a[i], b[i])))
          [] ev.op = "muls"  -> each(LAMBDA i : RMul(a[i], b[1]), LAMBDA i : RAbs(RMul(a[i], b[1])))
          \* a quotient by zero is no number (not finite); the other components do not care
          [] ev.op = "divv"  -> Len(r) = n /\ \A i \in 1..n :
                                   IF REq(b[i], RInt(0)) THEN ~RIsNum(r[i]) ELSE near(r[i], RDiv(a[i], b[i]), RAbs(RDiv(a[i], b[i])))
          \* integer division truncates towards zero
          [] ev.op = "divi"  -> Len(r) = n /\ \A i \in 1..n :
                                   LET q == RDiv(a[i], b[i])
                                       f == RFloor(q)
                                   IN  REq(r[i], RInt(IF RLt(q, RInt(0)) /\ ~REq(RInt(f), q) THEN f + 1 ELSE f))
          [] ev.op = "eq"    -> bool = (\A i \in 1..n : IF ev.ty = "i" THEN REq(a[i], b[i]) ELSE ~differ(i))
          \* row-major element (row, col), 0-based, of a 3x3 matrix
          [] ev.op = "at"    -> \A i \in 0..2 : \A j \in 0..2 : REq(r[3 * i + j + 1], a[3 * i + j + 1])
          \* set element (row, col)
          [] ev.op = "setrc" -> VEq(r, [a EXCEPT ![3 * ev.i + ev.j + 1] = b[1]])
          \* product of a row vector with a matrix: r_i = sum_j m_ji v_j
          [] ev.op = "dot"   -> Len(r) = 3 /\ \A i \in 1..3 :
                                  near(r[i], RSum([j \in 1..3 |-> RMul(a[3 * (j - 1) + i], b[j])]),
                                             RMul(RInt(4), RSum([j \in 1..3 |-> RAbs(RMul(a[3 * (j - 1) + i], b[j]))])))
          [] OTHER -> FALSE)

-----------------------------------------------------------------------------
(* Input files.  An input set is a record of sections; each section is a     *)
(* record of printed values.  Reading a file replaces exactly the sections   *)
(* the file has, with exactly the values the file gives.                      *)
Sections == {"general", "grid", "time", "velocity", "levelset"}
SameVal(kind, x, y) == CASE kind = "num" -> REq(RStr(x), RStr(y))
                         [] kind = "str" -> x = y
                         [] kind = "int" -> x = y
                         [] kind = "vec" -> VEq(RVec(x), RVec(y))
KeysOf == [ general  |-> [output_directory |-> "str"],
            grid     |-> [x_min |-> "num", x_max |-> "num", y_min |-> "num", y_max |-> "num", z_min |-> "num", z_max |-> "num",
                          nx |-> "int", ny |-> "int", nz |-> "int"],
            time     |-> [start |-> "num", end |-> "num", dt |-> "num", constant_dt |-> "str"],
            velocity |-> [name |-> "str", vector |-> "vec", center |-> "vec", gradient_scheme |-> "str"],
            levelset |-> [name |-> "str", center |-> "vec", radius |-> "num", gradient_scheme |-> "str"] ]
\* cur: the set before, given: the sections of the file, res: the set after
InputsOk(cur, given, res) ==
  \A sec \in Sections :
    LET want == IF sec \in DOMAIN given THEN given[sec] ELSE cur[sec] IN
    \A key \in DOMAIN KeysOf[sec] :
      Ck(<<"input", sec, key>>, SameVal(KeysOf[sec][key], res[sec][key], want[key]))
=============================================================================
