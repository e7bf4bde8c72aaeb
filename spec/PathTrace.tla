----------------------------- MODULE PathTrace ------------------------------
(***************************************************************************)
(* Judges paths and their file operations.  Paths are numbered in the      *)
(* order of their creation; s is always a text, ok: no error.              *)
(*  "new" a ok s        from the text a     "join" x y ok s  x joined to y *)
(*  "joins" x a ok s    joined to the text  "parent" "abs" "pickle" x ok s *)
(*  "suffix" x a ok s   with the suffix a                                  *)
(*  "name" x s, "isabs" x b, "rel" x y ok s, "eq" x y b, "lt" x y b,       *)
(*  "hash" x y b                                                           *)
(*  "write" x a ok, "read" x ok s, "size" x ok n, "file" x b, "dir" x b,   *)
(*  "unlink" x ok, "move" x y ok, "mkdir" x ok,                            *)
(*  "glob" x pats l     l: the texts of the paths; they become paths       *)
(*  "seen" l            the files which really exist: texts and contents   *)
(* Remote directories exist with their files.                              *)
(***************************************************************************)
EXTENDS PathOps, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, objs, fs, bad
vars == <<tid, i, objs, fs, bad>>
T == Traces[tid]

Cwd == Parse(T.cwd)
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ objs = <<>> /\ bad = ""
        /\ fs = [files |-> {}, dirs |-> {Parse(Traces[tid].dirs[j]) : j \in 1..Len(Traces[tid].dirs)}]

Range(l) == {l[j] : j \in 1..Len(l)}
\* A new path is p
New(e, p) == /\ bad' = IF e.ok # (p # Bad) THEN (IF e.ok THEN "path-out-of-nothing" ELSE "path-refused")
                       ELSE IF e.ok /\ e.s # Text(p) THEN "wrong-path" ELSE ""
             /\ objs' = IF e.ok /\ p # Bad THEN Append(objs, p) ELSE objs
             /\ UNCHANGED fs
Is(b, what) == bad' = (IF b THEN "" ELSE what) /\ UNCHANGED <<objs, fs>>
To(e, ok, f) == /\ bad' = IF e.ok # ok THEN "operation-wrongly-failed-or-not" ELSE ""
                /\ fs' = IF ok THEN f ELSE fs
                /\ UNCHANGED objs
\* The directories; of a remote those which its files imply
Dirs(p) == IF p.r = <<>> THEN fs.dirs ELSE Implied(fs, p.r)

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1]
           X == objs[e.x]
           Y == objs[e.y]
       IN CASE e.e = "new" -> New(e, Parse(e.a))
            [] e.e = "join" -> New(e, Join(X, Y))
            [] e.e = "joins" -> New(e, Join(X, Parse(e.a)))
            [] e.e = "parent" -> New(e, Parent(X))
            [] e.e = "abs" -> New(e, Absolute(X, Cwd))
            [] e.e = "pickle" -> New(e, X)
            [] e.e = "suffix" -> New(e, WithSuffix(X, e.a))
            [] e.e = "name" -> Is(e.s = Name(X), "wrong-name")
            [] e.e = "isabs" -> Is(e.b = X.abs, "wrong-absolute")
            [] e.e = "rel" -> Is(LET p == Relative(X, Y) IN e.ok = (p # Bad) /\ (e.ok => e.s = Text(p)), "wrong-relative-path")
            [] e.e = "eq" -> Is(e.b = (X = Y), "wrong-equality")
            [] e.e = "hash" -> Is(X = Y => e.b, "wrong-hash")
            [] e.e = "lt" -> Is(e.b = Less(X, Y), "wrong-order")
            [] e.e = "write" -> To(e, X \notin Dirs(X) /\ (X.r # <<>> \/ Parent(X) \in fs.dirs), Put(fs, X, e.a))
            [] e.e = "read" -> Is(e.ok = (X \in Files(fs)) /\ (e.ok => e.s = Content(fs, X)), "wrong-content")
            [] e.e = "size" -> Is(X \in Files(fs) => e.ok /\ e.n = Len(Content(fs, X)), "wrong-size")
            [] e.e = "file" -> Is(e.b = (X \in Files(fs)), "wrong-is-file")
            [] e.e = "dir" -> Is(e.b = (X \in Dirs(X)), "wrong-is-dir")
            [] e.e = "unlink" -> To(e, X \in Files(fs), Del(fs, X))
            [] e.e = "move" -> To(e, X \in Files(fs), IF X \in Files(fs) THEN Put(Del(fs, X), Y, Content(fs, X)) ELSE fs)
            [] e.e = "mkdir" -> To(e, TRUE, [fs EXCEPT !.dirs = @ \cup {[X EXCEPT !.parts = SubSeq(@, 1, n)] : n \in (IF e.b THEN 0 ELSE Len(X.parts))..Len(X.parts)}])
            [] e.e = "glob" ->
                 LET want == Glob([fs EXCEPT !.dirs = Dirs(X)], X, e.pats)
                 IN /\ bad' = IF Range(e.l) # {Text(p) : p \in want} THEN "wrong-matches" ELSE IF Len(e.l) # Cardinality(want) THEN "match-repeated" ELSE ""
                    /\ objs' = objs \o [j \in 1..Len(e.l) |-> Parse(e.l[j])]
                    /\ UNCHANGED fs
            [] e.e = "seen" -> Is({<<Text(f.p), f.c>> : f \in fs.files} = Range(e.l), "other-files-changed")
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
