------------------------------ MODULE MC_Files ------------------------------
(* Every state a small directory tree can reach through the file helper, and  *)
(* every call in each of them.  hist is a shortest way to get there (it is    *)
(* not part of the state that is compared); every transition is printed and   *)
(* replayed into the implementation.                                          *)
EXTENDS GalsFiles, Json, FiniteSets

VARIABLES fs, hist

Paths == { <<"a">>, <<"b">>, <<"a", "x">>, <<"a", "x", "y">>, <<"b", "z">> }
Ops == {"mkdir", "rm", "rmdir", "write", "exists"}
Calls == [op : Ops, path : Paths]

Init == fs = << >> /\ hist = << >>
Do(c) == /\ fs' = FsAfter(fs, c)
         /\ hist' = Append(hist, c)
         /\ PrintT("REPLAY " \o ToJson(hist'))
Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_<<fs, hist>>
View == fs

\* A tree: whatever exists lies in a directory.
Tree == \A p \in DOMAIN fs : Len(p) = 1 \/ Kind(fs, SubSeq(p, 1, Len(p) - 1)) = "dir"
\* The answers mean what they say.
Honest ==
  \A p \in Paths :
    LET M == FsAfter(fs, [op |-> "mkdir", path |-> p])
        R == FsAfter(fs, [op |-> "rm", path |-> p])
        D == FsAfter(fs, [op |-> "rmdir", path |-> p])
        W == FsAfter(fs, [op |-> "write", path |-> p])
    IN  /\ FsAnswer(fs, "mkdir", p) <=> Kind(M, p) = "dir"
        /\ Kind(fs, p) = "none" /\ Exists(M, p) => Kind(M, p) = "dir"
        /\ FsAnswer(fs, "rm", p) <=> fs # R
        /\ FsAnswer(fs, "rm", p) => ~Exists(R, p)
        /\ FsAnswer(fs, "rmdir", p) => \A q \in DOMAIN D : ~IsPrefix(p, q)
        /\ CanWrite(fs, p) => Kind(W, p) = "file"
\* Nothing but the named path, what is below it, and the directories above it changes.
Local == [][ \A q \in DOMAIN fs \cup DOMAIN fs' :
               Kind(fs, q) # Kind(fs', q) => LET p == hist'[Len(hist')].path IN IsPrefix(p, q) \/ IsPrefix(q, p) ]_<<fs, hist>>
\* What existed before and is not removed is still there, with its kind.
Keeps == [][ hist'[Len(hist')].op \in {"mkdir", "write", "exists"} => \A q \in DOMAIN fs : Kind(fs', q) = Kind(fs, q) ]_<<fs, hist>>
=============================================================================
