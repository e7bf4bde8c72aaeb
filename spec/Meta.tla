-------------------------------- MODULE Meta --------------------------------
(***************************************************************************)
(* All settings at three places of small trees of metadatasets.  The tree  *)
(* is walked with a list of what is still to do; this yields the datasets  *)
(* of MetaOps, whose weights sum to one and which have their settings from *)
(* the place which is said to take precedence.  The trees are written for  *)
(* replay.                                                                 *)
(***************************************************************************)
EXTENDS MetaOps, SequencesExt, Json, IOUtils

CONSTANTS Emit

Dsets == << [p |-> <<"a", "d0">>, d |-> <<[n |-> "dataset.yaml", flavors |-> <<>>], [n |-> "other.yaml", flavors |-> << <<"k", "own">> >>]>>,
             s |-> <<[n |-> "split.yaml", parts |-> <<[n |-> "train", shard |-> "0"], [n |-> "val", shard |-> "1"]>>],
                     [n |-> "alt.yaml", parts |-> <<[n |-> "train", shard |-> "2"], [n |-> "val", shard |-> "3"]>>]>>],
            [p |-> <<"d1">>, d |-> <<[n |-> "dataset.yaml", flavors |-> << <<"k", "own">>, <<"z", "own">> >>]>>,
             s |-> <<[n |-> "split.yaml", parts |-> <<[n |-> "train", shard |-> "2"], [n |-> "val", shard |-> "0"]>>]>>] >>
P(x) == [abs |-> FALSE, parts |-> x]
Ref(p, w, s) == [k |-> "ref", p |-> P(p), w |-> w, split |-> s.split, flavor |-> s.flavor, flavors |-> s.flavors, m |-> s.m, d |-> "", s |-> ""]
None == [split |-> "", flavor |-> "", flavors |-> <<>>, m |-> 1]
Settings(x) == {[split |-> sp, flavor |-> f, flavors |-> fs, m |-> m] : sp \in {"", "val"}, f \in {"", x}, fs \in {<<>>, << <<"k", x>>, <<x, "1">> >>}, m \in {1, IF x = "i" THEN 2 ELSE 3}}
Shapes == {"blend", "one", "join", "deep"}
Inner(sh, s) == IF sh = "join"
                THEN [k |-> "join", l |-> <<Ref(<<"..", "a", "d0">>, 1, s), [Ref(<<"..", "d1">>, 1, None) EXCEPT !.s = "split.yaml"]>>,
                      w |-> 1, split |-> "", flavor |-> "", flavors |-> s.flavors, m |-> s.m, s |-> ""]
                ELSE [k |-> "blend", l |-> <<[Ref(<<"..", "a", "d0">>, 2, s) EXCEPT !.d = "other.yaml"], Ref(<<"..", "d1">>, 3, None)>>]
Outer(sh, s) == IF sh = "one" THEN Ref(<<"sub", "m.yaml">>, 1, s)
                ELSE [k |-> "blend", l |-> <<Ref(<<"a", "d0">>, 1, None), Ref(<<"sub", "m.yaml">>, 4, s)>>
                                          \o (IF sh = "deep" THEN <<Ref(<<"sub", "m.yaml">>, 2, None)>> ELSE <<>>)]
World(sh, si, so) == [sets |-> Dsets,
    files |-> << [p |-> <<"m.yaml">>, v |-> 2, x |-> TRUE, splits |-> <<[n |-> "train", e |-> Outer(sh, so)], [n |-> "val", e |-> Ref(<<"d1">>, 1, None)]>>],
                 [p |-> <<"sub", "m.yaml">>, v |-> 2, x |-> FALSE, splits |-> <<[n |-> "train", e |-> Inner(sh, si)], [n |-> "val", e |-> Inner("blend", si)]>>] >>]

VARIABLES sh, si, so, rq, todo, out, pc
vars == <<sh, si, so, rq, todo, out, pc>>
W == World(sh, si, so)

Init == pc = "pick" /\ sh \in Shapes /\ si = None /\ so = None /\ rq = None /\ todo = <<>> /\ out = <<>>
Pick == /\ pc = "pick" /\ pc' = "walk"
        /\ si' \in Settings("i") /\ so' \in Settings("o")
        /\ rq' \in {[s EXCEPT !.split = "train"] : s \in Settings("r")}
        /\ todo' = <<[dir |-> <<>>, e |-> Root(<<"m.yaml">>, "", "", <<>>, 1), c |-> [Outside EXCEPT !.split = "train", !.flavor = rq'.flavor, !.flavors = rq'.flavors, !.m = rq'.m]]>>
        /\ UNCHANGED <<sh, out>>
\* The last of the list is taken; what it stands for is put back in reverse
Step ==
    /\ pc = "walk" /\ todo # <<>>
    /\ LET x == todo[Len(todo)]
           rest == Front(todo)
           e == x.e
           c == x.c
       IN CASE e.k = "blend" ->
                 /\ todo' = rest \o Reverse([j \in 1..Len(e.l) |-> [x EXCEPT !.e = e.l[j], !.c.w = Num(@, <<e.l[j].w, Total(e.l)>>)]])
                 /\ UNCHANGED out
            [] e.k = "ref" /\ IsFile(W, At(x.dir, e.p)) ->
                 LET F == File(W, At(x.dir, e.p))
                     sp == IF e.split = "" THEN c.split ELSE e.split IN
                 /\ todo' = Append(rest, [dir |-> Dir(F.p), e |-> F.splits[Get(F.splits, sp)].e,
                        c |-> [split |-> sp, flavor |-> IF c.flavor = "" THEN e.flavor ELSE c.flavor, flavors |-> Over(e.flavors, c.flavors), m |-> e.m * c.m, w |-> c.w, s |-> ""]])
                 /\ UNCHANGED out
            [] OTHER -> out' = out \o Eval(W, x.dir, e, c) /\ todo' = rest
    /\ UNCHANGED <<sh, si, so, rq, pc>>
Stop == pc = "walk" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<sh, si, so, rq, todo, out>>
Next == Pick \/ Step \/ Stop
Spec == Init /\ [][Next]_vars

Leaves == Eval(W, <<>>, Root(<<"m.yaml">>, "", "", <<>>, 1), [Outside EXCEPT !.split = "train", !.flavor = rq.flavor, !.flavors = rq.flavors, !.m = rq.m])
RECURSIVE Sum(_)
Sum(l) == IF l = <<>> THEN <<0, 1>> ELSE LET r == Sum(Tail(l)) w == Head(l).w IN <<w[1] * r[2] + r[1] * w[2], w[2] * r[2]>>
Val(f, k) == f[CHOOSE j \in 1..Len(f) : f[j][1] = k][2]
Done == pc = "done" =>
    /\ out = Leaves
    /\ \A j \in 1..Len(out) : out[j] # Bad
    /\ LET s == Sum(out) IN s[1] = s[2]
    /\ \A j \in 1..Len(out) : \A k \in 1..Len(out[j].cols) :
         LET col == out[j].cols[k] IN
         /\ rq.flavor # "" => col.flavor = rq.flavor
         /\ \A x \in Keys(rq.flavors) : x \in Keys(col.flavors) /\ Val(col.flavors, x) = Val(rq.flavors, x)
         /\ Cardinality(Keys(col.flavors)) = Len(col.flavors)
    /\ \A j \in 1..Len(out) : out[j].m % rq.m = 0
    /\ Len(out) = (CASE sh = "one" -> 2 [] sh = "blend" -> 3 [] sh = "join" -> (IF so.split = "" THEN 2 ELSE 3) [] OTHER -> 5)
    /\ Loads(W, <<"m.yaml">>, 1)

Cases == {[W |-> World(s, i, o), rq |-> r] : s \in Shapes, i \in Settings("i"), o \in Settings("o"), r \in {[x EXCEPT !.split = "train"] : x \in Settings("r")}}
ASSUME Emit => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
