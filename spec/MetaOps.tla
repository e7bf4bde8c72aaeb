------------------------------- MODULE MetaOps -------------------------------
(***************************************************************************)
(* What a metadataset composes.  A world has                               *)
(*   files: [p, v, x, bl, splits]  p: path, v: version, x: names its class,*)
(*            splits: sequence of [n, e]                                   *)
(*   sets:  [p, d, s]  d: sequence of [n, flavors] (dataset configs),      *)
(*            s: sequence of [n, parts], parts: sequence of [n, shard]     *)
(* Entries e: "blend" [l]; "ref" [p, w, split, flavor, flavors, m, d, s];  *)
(* "join" [l, w, split, flavor, flavors, m, s], l are "ref"s.  Settings    *)
(* which are not made are "" (and m = 1, flavors = << >>).  Paths are      *)
(* [abs, parts]; flavors are sequences of <<key, value>>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Fold(_, _)
Fold(dir, parts) == IF parts = <<>> THEN dir
                    ELSE IF Head(parts) = ".." THEN Fold(SubSeq(dir, 1, Len(dir) - 1), Tail(parts))
                    ELSE Fold(Append(dir, Head(parts)), Tail(parts))
At(dir, p) == Fold(IF p.abs THEN <<>> ELSE dir, p.parts)
Dir(p) == SubSeq(p, 1, Len(p) - 1)
Elems(l) == {l[k] : k \in 1..Len(l)}

Get(l, n) == CHOOSE k \in 1..Len(l) : l[k].n = n
Has(l, n) == \E k \in 1..Len(l) : l[k].n = n
IsFile(W, p) == \E k \in 1..Len(W.files) : W.files[k].p = p
File(W, p) == W.files[CHOOSE k \in 1..Len(W.files) : W.files[k].p = p]
IsSet(W, p) == \E k \in 1..Len(W.sets) : W.sets[k].p = p
Set(W, p) == W.sets[CHOOSE k \in 1..Len(W.sets) : W.sets[k].p = p]

Or(a, b) == IF a # "" THEN a ELSE b
Keys(f) == {f[k][1] : k \in 1..Len(f)}
\* The settings of a below those of b
Over(a, b) == SelectSeq(a, LAMBDA x : x[1] \notin Keys(b)) \o b

\* A metadataset can be loaded: all files it names, in any split, are there and well formed
RECURSIVE Loads(_, _, _), Fits(_, _, _, _)
Fits(W, dir, v, e) ==
    CASE e.k = "blend" -> \A j \in 1..Len(e.l) : Fits(W, dir, v, e.l[j])
      [] e.k = "join" -> \A j \in 1..Len(e.l) : IsSet(W, At(dir, e.l[j].p))
      [] OTHER -> LET p == At(dir, e.p) IN
                  IF IsFile(W, p) THEN e.d = "" /\ e.s = "" /\ Loads(W, p, v) ELSE IsSet(W, p)
\* v: the version which the one who names it expects
Loads(W, p, v) == LET F == File(W, p) IN
                  /\ (F.x \/ F.v = v)
                  /\ \A j \in 1..Len(F.splits) : Fits(W, Dir(p), F.v, F.splits[j].e)

\* The datasets, in order.  c: what comes from outside; w: a fraction
Bad == [bad |-> TRUE]
Num(a, b) == <<a[1] * b[1], a[2] * b[2]>>
RECURSIVE Total(_)
Total(l) == IF l = <<>> THEN 0 ELSE Head(l).w + Total(Tail(l))

Column(W, dir, e, c) ==
    LET p == At(dir, e.p)
        S == Set(W, p)
        d == Or(e.d, "dataset.yaml")
        s == Or(c.s, Or(e.s, "split.yaml"))
        split == Or(e.split, c.split)
    IN IF ~Has(S.d, d) \/ ~Has(S.s, s) THEN Bad
       ELSE LET parts == S.s[Get(S.s, s)].parts IN
            IF ~Has(parts, split) THEN Bad
            ELSE [p |-> p, shard |-> parts[Get(parts, split)].shard,
                  flavor |-> Or(c.flavor, e.flavor),
                  flavors |-> Over(S.d[Get(S.d, d)].flavors, Over(e.flavors, c.flavors))]

RECURSIVE Eval(_, _, _, _), All(_, _, _, _)
\* A sequence of leaves, or one which contains Bad
All(W, dir, l, c) == IF l = <<>> THEN <<>>
                     ELSE Eval(W, dir, Head(l), [c EXCEPT !.w = Num(c.w, <<Head(l).w, 1>>)]) \o All(W, dir, Tail(l), c)
Eval(W, dir, e, c) ==
    CASE e.k = "blend" ->
           All(W, dir, e.l, [c EXCEPT !.w = Num(c.w, <<1, Total(e.l)>>)])
      [] e.k = "join" ->
           LET i == [c EXCEPT !.split = Or(e.split, c.split), !.flavor = Or(c.flavor, e.flavor),
                              !.flavors = Over(e.flavors, c.flavors), !.s = e.s]
               cols == [j \in 1..Len(e.l) |-> Column(W, dir, e.l[j], i)]
           IN IF \E j \in 1..Len(cols) : cols[j] = Bad THEN <<Bad>>
              ELSE <<[cols |-> cols, join |-> TRUE, m |-> c.m * e.m, w |-> c.w]>>
      [] OTHER ->
           LET p == At(dir, e.p) IN
           IF IsFile(W, p)
           THEN LET F == File(W, p)
                    i == [split |-> Or(e.split, c.split), flavor |-> Or(c.flavor, e.flavor),
                          flavors |-> Over(e.flavors, c.flavors), m |-> c.m * e.m, w |-> c.w, s |-> ""]
                IN IF Has(F.splits, i.split)
                   THEN Eval(W, Dir(p), F.splits[Get(F.splits, i.split)].e, i)
                   ELSE <<Bad>>
           ELSE LET col == Column(W, dir, e, c) IN
                IF col = Bad THEN <<Bad>>
                ELSE <<[cols |-> <<col>>, join |-> FALSE, m |-> c.m * e.m, w |-> c.w]>>

\* A reference to the root, as if a file named it
Root(p, split, flavor, flavors, m) ==
    [k |-> "ref", p |-> [abs |-> TRUE, parts |-> p], w |-> 1, split |-> split, flavor |-> flavor, flavors |-> flavors, m |-> m, d |-> "", s |-> ""]
Outside == [split |-> "", flavor |-> "", flavors |-> <<>>, m |-> 1, w |-> <<1, 1>>, s |-> ""]
=============================================================================
