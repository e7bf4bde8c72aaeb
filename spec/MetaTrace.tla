----------------------------- MODULE MetaTrace ------------------------------
(***************************************************************************)
(* Judges metadatasets which were loaded.  A trace has a world W and        *)
(* events                                                                  *)
(*  load: root, set (a dataset itself), split, flavor, flavors (given to   *)
(*        load), ok                                                        *)
(*  get:  split, flavor, flavors, m, train, par, ok, l: the datasets in    *)
(*        order, each [w, m, train, par, cols: paths and settings, smp:    *)
(*        samples]                                                         *)
(* w: a fraction <<a, b>>; a sample has [x, flavor, flavors] for each of   *)
(* its columns, x = <<path, shard, number>>.                               *)
(***************************************************************************)
EXTENDS MetaOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, at, bad
vars == <<tid, i, at, bad>>
T == Traces[tid]
W == T.W
Init == tid \in 1..Len(Traces) /\ i = 0 /\ at = [p |-> <<>>] /\ bad = ""

Loadable(e) == IF IsFile(W, e.root) THEN Loads(W, e.root, 1) ELSE IsSet(W, e.root)
Expected(e) == TLCEval(Eval(W, <<>>, Root(at.p, at.split, at.flavor, at.flavors, 1),
                    [Outside EXCEPT !.split = e.split, !.flavor = e.flavor, !.flavors = e.flavors, !.m = e.m]))

\* The samples of a leaf: two of each shard
Col(c, n) == [x |-> <<c.p, c.shard, n>>, flavor |-> c.flavor, flavors |-> Elems(c.flavors)]
Samples(f) == {[j \in 1..Len(f.cols) |-> Col(f.cols[j], n)] : n \in 0..1}
Seen(l) == {[j \in 1..Len(s) |-> [x |-> s[j].x, flavor |-> s[j].flavor, flavors |-> Elems(s[j].flavors)]] : s \in Elems(l.smp)}

Leaf(f, l, e) ==
    CASE f.w[1] * l.w[2] # l.w[1] * f.w[2] -> "wrong-weight"
      [] [j \in 1..Len(f.cols) |-> f.cols[j].p] # l.paths -> "wrong-dataset"
      [] f.m # l.m -> "wrong-multiplier"
      [] l.train # e.train -> "training-not-passed"
      [] l.par # e.par -> "argument-not-passed"
      [] {[j \in 1..Len(s) |-> s[j].x] : s \in Seen(l)} # {[j \in 1..Len(s) |-> s[j].x] : s \in Samples(f)} -> "wrong-samples"
      [] {[j \in 1..Len(s) |-> s[j].flavor] : s \in Seen(l)} # {[j \in 1..Len(s) |-> s[j].flavor] : s \in Samples(f)} -> "wrong-subflavor"
      [] Seen(l) # Samples(f) -> "wrong-subflavors"
      [] (~e.train \/ f.m > 0) /\ \E s \in Samples(f) : Cardinality({j \in 1..Len(l.smp) : \A k \in 1..Len(s) : l.smp[j][k].x = s[k].x}) # (IF e.train THEN f.m ELSE 1) -> "wrong-repetition"
      [] OTHER -> ""

First(S) == IF S = {} THEN "" ELSE CHOOSE x \in S : TRUE
Next ==
    /\ bad = "" /\ i < Len(T.evs) /\ i' = i + 1 /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1] IN
       CASE e.e = "load" ->
              /\ bad' = IF e.ok = Loadable(e) THEN "" ELSE IF e.ok THEN "loaded-what-is-not-there" ELSE "not-loaded"
              /\ at' = [p |-> e.root, split |-> e.split, flavor |-> e.flavor, flavors |-> e.flavors]
         [] OTHER ->
              LET x == Expected(e)
                  ok == \A j \in 1..Len(x) : x[j] # Bad
              IN /\ bad' = IF e.ok # ok THEN (IF e.ok THEN "composed-what-is-not-there" ELSE "not-composed")
                           ELSE IF ~ok THEN ""
                           ELSE IF Len(x) # Len(e.l) THEN "wrong-number-of-datasets"
                           ELSE First({Leaf(x[j], e.l[j], e) : j \in 1..Len(x)} \ {""})
                 /\ UNCHANGED at
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
