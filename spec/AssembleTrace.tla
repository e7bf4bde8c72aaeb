--------------------------- MODULE AssembleTrace ----------------------------
(***************************************************************************)
(* Judges loaders.  T.c: what was asked for; T.D: the numbers of the       *)
(* samples of each dataset, in order.  T.w: for each worker of all ranks   *)
(* [w, base, eps, ps]: base: the numbers which the same loader yields      *)
(* without a task encoder, eps: the results of its epochs, ps: how many of *)
(* the results of the next                                                 *)
(* epoch were taken.  T.fl: the subflavors expected and seen.              *)
(*                                                                         *)
(* Validation: base is one epoch.  Training: base is a beginning.          *)
(***************************************************************************)
EXTENDS AssembleOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
T == Traces[tid]
C == T.c
All == Flat(T.D)
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""

IsPre(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Distinct(l) == Cardinality(Elems(l)) = Len(l)
Bases == Flat([k \in 1..Len(T.w) |-> T.w[k].base])
Owned(k) == Elems(T.w[k].base)

Val == \* worker i
    LET x == T.w[i + 1]
        full == TLCEval(Compose(C, x.base, TRUE))
        ep == IF C.limit > 0 THEN Take(Share(C.limit, x.w, C.n), full) ELSE full
    IN CASE \E a \in 1..Len(x.base), b \in 1..Len(x.base) : a < b /\ x.base[a] > x.base[b] -> "validation-out-of-order"
         [] \E e \in 1..Len(x.eps) : x.eps[e] # ep ->
              IF \E e \in 1..Len(x.eps) : Len(x.eps[e]) # Len(ep) THEN "wrong-length-of-epoch" ELSE "wrong-steps"
         [] OTHER -> ""

\* The samples of one dataset in base, in parts of one round (m epochs shuffled together)
Of(d, b) == SelectSeq(b, LAMBDA v : v \in Elems(T.D[d]))
Rounds(d, b) ==
    LET l == Of(d, b)
        own == Elems(l)
        ch == IF own = {} THEN <<>> ELSE Full(C.m * Cardinality(own), Chunks(C.m * Cardinality(own), l))
    IN \A j \in 1..Len(ch) : \A v \in own : Cardinality({p \in 1..Len(ch[j]) : ch[j][p] = v}) = C.m
\* Of m > 1 epochs shuffled together, sample by sample: not one epoch after the other in every round
Apart(d, b) ==
    LET l == Of(d, b)
        n == Cardinality(Elems(l))
        ch == IF n < 4 THEN <<>> ELSE Full(C.m * n, Chunks(C.m * n, l))
    IN Len(ch) >= 15 /\ \A j \in 1..Len(ch) : Cardinality(Elems(Take(n, ch[j]))) = n
\* How far a sample may come ahead of its turn: the datasets are read in order here
Turn(b) == \A p \in 1..Len(b) : \E q \in 0..(Len(b) + C.shuf) : q <= p - 2 + C.shuf /\ b[p] = All[1 + (q % Len(All))]
Train ==
    LET x == T.w[i + 1]
        full == TLCEval(Compose(C, x.base, FALSE))
        got == Flat(x.eps)
    IN CASE C.shuf <= 1 /\ \E d \in 1..Len(T.D) : ~Rounds(d, x.base) -> "training-repeats-wrongly"
         [] C.one /\ C.shuf <= 1 /\ \E d \in 1..Len(T.D) : Apart(d, x.base) -> "epochs-not-shuffled-together"
         [] C.ordered /\ C.shuf <= 1 /\ \E p \in 1..Len(x.base) : x.base[p] # All[1 + ((p - 1) % Len(All))] -> "order-of-single-shard"
         [] C.ordered /\ C.shuf > 1 /\ ~Turn(x.base) -> "shuffled-too-far"
         [] C.ordered /\ C.shuf > 1 /\ Len(All) > 2 /\ Len(x.base) >= 60 /\ \A p \in 1..Len(x.base) : x.base[p] = All[1 + ((p - 1) % Len(All))] -> "not-shuffled"
         [] ~IsPre(got, full) -> "wrong-steps"
         [] C.virt > 0 /\ \E e \in 1..Len(x.eps) : Len(x.eps[e]) # Share(C.virt, x.w, C.n) -> "wrong-length-of-epoch"
         [] C.virt = 0 /\ Len(got) < C.want -> "training-ends"
         [] C.only > 0 /\ Owned(i + 1) \cap Elems(T.D[C.only]) # {} /\ ~(Owned(i + 1) \subseteq Elems(T.D[C.only])) -> "weights-ignored"
         [] OTHER -> ""

\* What all workers have together
Together ==
    CASE T.fl[1] # T.fl[2] -> "argument-not-passed"
      [] T.ds[1] # T.ds[2] -> "wrong-datasets"
      [] ~C.train /\ ~(Distinct(Bases) /\ Elems(Bases) = Elems(All)) -> "validation-incomplete"
      [] C.train /\ C.only = 0 /\ C.shuf <= 1 /\ C.cover /\
           ~(Elems(Bases) = Elems(All) /\ \A a, b \in 1..Len(T.w) : a # b => Owned(a) \cap Owned(b) = {}) -> "training-incomplete"
      [] C.train /\ C.only > 0 /\ ~(Elems(T.D[C.only]) \subseteq Elems(Bases)) -> "weights-ignored"
      [] C.train /\ C.only = 0 /\ C.shuf <= 1 /\ C.cover /\ \E a, b \in 1..Len(T.w) : Cardinality(Owned(a)) > Cardinality(Owned(b)) + 1 -> "unbalanced"
      [] OTHER -> ""

Next ==
    /\ bad = "" /\ i <= Len(T.w) /\ i' = i + 1 /\ UNCHANGED tid
    /\ bad' = IF i = Len(T.w) THEN Together ELSE IF C.train THEN Train ELSE Val
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i = Len(T.w) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
