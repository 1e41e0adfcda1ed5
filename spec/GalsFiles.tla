----------------------------- MODULE GalsFiles -----------------------------
(***************************************************************************)
(* The file helper, on a scratch directory.  The state maps every path     *)
(* that exists below it to "dir" or "file".  A path is a sequence of name  *)
(* parts below the scratch directory; "/" at the end is not significant.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Exists(fs, p) == p = << >> \/ p \in DOMAIN fs
Kind(fs, p)   == IF p = << >> THEN "dir" ELSE IF p \in DOMAIN fs THEN fs[p] ELSE "none"
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Prefixes(p)   == {SubSeq(p, 1, k) : k \in 1..Len(p)}

\* A directory can be made where no file is in the way.
CanMake(fs, p) == \A q \in Prefixes(p) : Kind(fs, q) # "file"

\* A file can be written where its directory is there and no directory of its name.
CanWrite(fs, p) == p # << >> /\ Kind(fs, p) # "dir" /\ Kind(fs, SubSeq(p, 1, Len(p) - 1)) = "dir"

FsAnswer(fs, op, p) ==
  CASE op = "exists" -> Exists(fs, p)
    [] op = "mkdir"  -> CanMake(fs, p)                        \* TRUE also when it was there already
    [] op = "rm"     -> Kind(fs, p) = "file"
    [] op = "rmdir"  -> Kind(fs, p) = "dir"

FsAfter(fs, ev) ==
  CASE ev.op = "mkdir" -> IF ~Exists(fs, ev.path) /\ CanMake(fs, ev.path)
                          THEN [q \in DOMAIN fs \cup Prefixes(ev.path) |-> IF q \in DOMAIN fs THEN fs[q] ELSE "dir"]
                          ELSE fs
    [] ev.op = "rm"    -> IF Kind(fs, ev.path) = "file" THEN [q \in DOMAIN fs \ {ev.path} |-> fs[q]] ELSE fs
    [] ev.op = "rmdir" -> IF Kind(fs, ev.path) = "dir" THEN [q \in {r \in DOMAIN fs : ~IsPrefix(ev.path, r)} |-> fs[q]] ELSE fs
    [] ev.op = "write" -> IF CanWrite(fs, ev.path) THEN (ev.path :> "file") @@ fs ELSE fs
    [] OTHER -> fs
=============================================================================
