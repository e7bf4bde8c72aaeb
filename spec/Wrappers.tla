------------------------------ MODULE Wrappers ------------------------------
(***************************************************************************)
(* The dataset wrappers of a pipeline as communicating automata.           *)
(*                                                                         *)
(* A pipeline is a sequence of nodes (children before parents; the root is *)
(* the last node).  Events happen on the edge above a node n:              *)
(*   "i"    n is being iterated (a pass starts, or continues)              *)
(*   "o" v  n yields the value v                                           *)
(*   "e"    n is exhausted (the pass ends)                                 *)
(*   "r"    n is reset to its initial state                                *)
(*   "h" v  the error handler of n is called with (the content of) v       *)
(*   "x"    n raises a fatal error                                         *)
(* Values are sequences of integers: <<id>> for a sample of a leaf, a map  *)
(* appends -1 (or -10-j for the j-th value of a generator), a batch is     *)
(* <<-2>> members <<-3>>.                                                  *)
(*                                                                         *)
(* Each node keeps one record (see Init0); `q` is the queue of values (and *)
(* handler calls) which the node has to yield next.  Own(...) says whether *)
(* an event is allowed at a node and what it does there, Child(...) what   *)
(* it does to the parent.  The automata of this module are used both for   *)
(* exhaustive model checking (WrappersMC) and for judging traces of the    *)
(* real pipeline (WrappersTrace).                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Init0 == [pos |-> 0, q |-> <<>>, buf |-> <<>>, bk |-> <<>>, fin |-> {},
          ce |-> FALSE, it |-> FALSE, rs |-> FALSE]

Out(v) == [k |-> "o", v |-> v]
Hnd(v) == [k |-> "h", v |-> v]
Fatal  == [k |-> "x", v |-> <<>>]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* The id of the first sample in a value
Key(v) == v[CHOOSE k \in 1..Len(v) : v[k] >= 0 /\ \A j \in 1..(k-1) : v[j] < 0]
Keys(ss) == {Key(ss[k]) : k \in 1..Len(ss)}
In(x, s) == \E k \in 1..Len(s) : s[k] = x
Hits(ks, s) == \E k \in 1..Len(s) : s[k] \in ks

\* Number of samples worker w (from 0) of W workers gets of a total of n
LocalLength(n, w, W) ==
    IF W <= 1 THEN n ELSE (n \div W) + (IF w < n % W THEN 1 ELSE 0)

\* The handler is only observable if it is not the default handler
HndOf(N, v) == IF N.defh THEN <<>> ELSE <<Hnd(v)>>

---------------------------------------------------------------------------
(* What one call of the user function of a node contributes to the queue   *)

RECURSIVE GenOut(_, _, _, _, _)
\* base: value, j: next position, g: count; stops at position 1 by skip or failure
GenOut(N, base, members, j, g) ==
    IF j >= g THEN <<>>
    ELSE IF j = 1 /\ Hits(Keys(members), N.skipmid) THEN <<>>
    ELSE IF j = 1 /\ Hits(Keys(members), N.failmid) THEN HndOf(N, Flat(members))
    ELSE <<Out(base \o <<0 - 10 - j>>)>> \o GenOut(N, base, members, j + 1, g)

MapQ(N, v) ==
    IF In(Key(v), N.skip) THEN <<>>
    ELSE IF In(Key(v), N.fail) THEN HndOf(N, v)
    ELSE IF In(Key(v), N.fatal) THEN <<Fatal>>
    ELSE IF N.gen = 0 THEN <<Out(v \o <<-1>>)>>
    ELSE GenOut(N, v, <<v>>, 0, N.gen)

Joined(ss) == <<-2>> \o Flat(ss) \o <<-3>>

BatchQ(N, ss) ==
    IF Hits(Keys(ss), N.skip) THEN <<>>
    ELSE IF Hits(Keys(ss), N.fail) THEN HndOf(N, Flat(ss))
    ELSE IF Hits(Keys(ss), N.fatal) THEN <<Fatal>>
    ELSE IF N.gen = 0 THEN <<Out(Joined(ss))>>
    ELSE GenOut(N, Joined(ss), ss, 0, N.gen)

RECURSIVE Chunks(_, _)
Chunks(ss, k) ==
    IF ss = <<>> THEN <<>>
    ELSE IF Len(ss) <= k THEN <<ss>>
    ELSE <<SubSeq(ss, 1, k)>> \o Chunks(SubSeq(ss, k + 1, Len(ss)), k)

\* The groups which the pre packer forms of a full buffer
PrePacks(N, ss) ==
    LET kept == SelectSeq(ss, LAMBDA v : ~In(Key(v), N.lose))
    IN  Chunks(IF N.rev THEN Reverse(kept) ELSE kept, N.k)

RECURSIVE PacksQ(_, _)
PacksQ(N, gs) == IF gs = <<>> THEN <<>> ELSE BatchQ(N, Head(gs)) \o PacksQ(N, Tail(gs))

PackQ(N, ss) ==
    IF In(Key(ss[1]), N.skipp) THEN <<>>
    ELSE IF In(Key(ss[1]), N.failp) THEN HndOf(N, Flat(ss))
    ELSE PacksQ(N, PrePacks(N, ss))

GroupKey(N, v) == (Key(v) % N.mod) + 1
GroupSize(N, g) == IF N.n > 0 THEN N.n ELSE N.sizes[g]

---------------------------------------------------------------------------
(* Results of applying an event: [s |-> new state, bad |-> failed clause]  *)
Ok(s) == [s |-> s, bad |-> ""]
Bad(s, c) == [s |-> s, bad |-> c]

PushOut(s, v) == [s EXCEPT !.q = Append(@, Out(v))]
PushQ(s, qs) == [s EXCEPT !.q = @ \o qs]

Drained(s) == s.q = <<>> /\ s.fin = {} /\ s.buf = <<>>

\* Nodes which buffer values of the child and have to drain before the next pass
Buffering(t) == t \in {"shuffle", "batch", "group", "pack", "map", "itermap", "filter"}

NoBuckets(N) == [g \in 1..(IF N.t = "group" THEN N.mod ELSE 0) |-> <<>>]

Start(N) == [Init0 EXCEPT !.bk = NoBuckets(N)]

(* Own step of node N (state s) of worker w of W *)
OwnOut(N, s, v, w, W) ==
    IF N.t = "leaf" THEN
        LET its == N.items[w + 1]
        IN IF s.pos >= Len(its) THEN Bad(s, "leaf-overrun")
           ELSE IF v # <<its[s.pos + 1]>> THEN Bad(s, "leaf-order")
           ELSE Ok([s EXCEPT !.pos = @ + 1])
    ELSE IF N.t = "shuffle" THEN
        LET ix == {k \in 1..Len(s.buf) : s.buf[k] = v}
        IN IF ix = {} THEN Bad(s, "shuffle-foreign")
           ELSE IF Len(s.buf) < N.n /\ ~s.ce THEN Bad(s, "shuffle-not-full")
           ELSE Ok([s EXCEPT !.buf = RemoveAt(s.buf, Min(ix))])
    ELSE IF N.t = "epochize" /\ s.rs THEN
        \* restored at the end of an epoch: this is the first sample of the next one
        IF s.q # <<>> /\ Head(s.q) = Out(v) THEN Ok([s EXCEPT !.q = Tail(@), !.pos = 1, !.rs = FALSE])
        ELSE Bad(s, "epochize-wrong-value")
    ELSE IF N.t \in {"epochize", "limit"} /\ s.pos >= LocalLength(N.n, w, W) THEN
        Bad(s, N.t \o "-too-long")
    ELSE IF s.q # <<>> THEN
        IF Head(s.q).k = "h" THEN Bad(s, N.t \o "-handler-not-called")
        ELSE IF Head(s.q).k = "x" THEN Bad(s, N.t \o "-fatal-swallowed")
        ELSE IF Head(s.q).v # v THEN Bad(s, N.t \o "-wrong-value")
        ELSE Ok([s EXCEPT !.q = Tail(@), !.pos = IF N.t \in {"epochize", "limit"} THEN @ + 1 ELSE @])
    ELSE IF Out(v) \in s.fin THEN Ok([s EXCEPT !.fin = @ \ {Out(v)}])
    ELSE Bad(s, N.t \o "-unexpected-value")

OwnHandler(N, s, v) ==
    IF s.q # <<>> THEN
        IF Head(s.q) = Hnd(v) THEN Ok([s EXCEPT !.q = Tail(@)])
        ELSE Bad(s, N.t \o "-wrong-handler-call")
    ELSE IF Hnd(v) \in s.fin THEN Ok([s EXCEPT !.fin = @ \ {Hnd(v)}])
    ELSE Bad(s, N.t \o "-unexpected-handler-call")

OwnFatal(N, s) ==
    IF s.q # <<>> /\ Head(s.q).k = "x" THEN Ok(s) ELSE Bad(s, N.t \o "-unexpected-error")

Undelivered(N, s) == \E k \in 1..Len(s.q) : s.q[k].k \in {"o", "h", "x"}

OwnEnd(N, s, cs, w, W) ==
    LET done == [Start(N) EXCEPT !.it = FALSE]
    IN CASE N.t = "leaf" ->
              IF s.pos = Len(N.items[w + 1]) THEN Ok(done) ELSE Bad(s, "leaf-early-end")
         [] N.t = "repeat" ->
              IF N.n = 0 THEN Bad(s, "repeat-infinite-ended")
              ELSE IF s.q # <<>> THEN Bad(s, "repeat-lost")
              ELSE IF s.pos # N.n THEN Bad(s, "repeat-wrong-passes") ELSE Ok(done)
         [] N.t = "concat" ->
              IF s.q # <<>> THEN Bad(s, "concat-lost")
              ELSE IF s.pos # Len(N.c) THEN Bad(s, "concat-early-end") ELSE Ok(done)
         [] N.t \in {"blend", "mix"} -> Bad(s, "blend-ended")
         [] N.t = "epochize" ->
              IF s.pos # LocalLength(N.n, w, W) THEN Bad(s, "epochize-too-short")
              ELSE Ok([s EXCEPT !.pos = 0, !.it = FALSE, !.rs = FALSE])
         [] N.t = "limit" ->
              IF s.pos # LocalLength(N.n, w, W) /\ ~(s.ce /\ s.q = <<>>) THEN Bad(s, "limit-too-short")
              ELSE IF cs[1].it THEN Bad(s, "limit-inner-not-reset")
              ELSE Ok(done)
         [] OTHER ->
              IF ~s.ce THEN Bad(s, N.t \o "-ended-before-inner")
              ELSE IF ~Drained(s) THEN Bad(s, N.t \o "-lost-at-end")
              ELSE Ok(done)

(* Effect of an event of child number k (state of the parent: s) *)
ChildOut(N, s, k, v, w, W) ==
    CASE N.t \in {"repeat", "epochize"} -> Ok(PushOut(s, v))
      [] N.t = "limit" -> Ok(PushOut([s EXCEPT !.rs = FALSE], v))
      [] N.t = "concat" ->
            IF k # s.pos + 1 THEN Bad(s, "concat-order") ELSE Ok(PushOut(s, v))
      [] N.t = "blend" ->
            IF N.w[k] = 0 THEN Bad(s, "blend-zero-weight") ELSE Ok(PushOut(s, v))
      [] N.t = "mix" ->
            IF N.w[k] = 0 THEN Bad(s, "blend-zero-weight")
            ELSE LET b == Append(s.buf, v)
                 IN IF Len(b) = N.n THEN Ok(PushQ([s EXCEPT !.buf = <<>>], BatchQ(N, b)))
                    ELSE Ok([s EXCEPT !.buf = b])
      [] N.t = "shuffle" ->
            IF Len(s.buf) >= N.n THEN Bad(s, "shuffle-overfull")
            ELSE Ok([s EXCEPT !.buf = Append(@, v)])
      [] N.t = "filter" -> Ok(IF In(Key(v), N.drop) THEN s ELSE PushOut(s, v))
      [] N.t = "map" -> Ok(PushQ(s, MapQ(N, v)))
      [] N.t = "itermap" ->
            Ok(IF In(Key(v), N.drop) THEN s
               ELSE IF In(Key(v), N.fail) THEN PushQ(s, HndOf(N, v))
               ELSE IF In(Key(v), N.rep) THEN
                    PushQ(PushOut(s, v \o <<-1>>), IF In(Key(v), N.failmid) THEN HndOf(N, v) ELSE <<Out(v \o <<-1>>)>>)
               ELSE PushOut(s, v \o <<-1>>))
      [] N.t = "batch" ->
            LET b == Append(s.buf, v)
            IN IF Len(b) = N.n THEN Ok(PushQ([s EXCEPT !.buf = <<>>], BatchQ(N, b)))
               ELSE Ok([s EXCEPT !.buf = b])
      [] N.t = "group" ->
            IF In(Key(v), N.skipg) THEN Ok(s)
            ELSE IF In(Key(v), N.failg) THEN Ok(PushQ(s, HndOf(N, v)))
            ELSE LET g == GroupKey(N, v)
                     b == Append(s.bk[g], v)
                 IN IF Len(b) = GroupSize(N, g)
                    THEN Ok(PushQ([s EXCEPT !.bk[g] = <<>>], BatchQ(N, b)))
                    ELSE Ok([s EXCEPT !.bk[g] = b])
      [] N.t = "pack" ->
            LET b == Append(s.buf, v)
            IN IF Len(b) = N.n THEN Ok(PushQ([s EXCEPT !.buf = <<>>], PackQ(N, b)))
               ELSE Ok([s EXCEPT !.buf = b])
      [] OTHER -> Bad(s, "leaf-has-child")

ChildEnd(N, s, k) ==
    CASE N.t = "repeat" ->
            IF N.n > 0 /\ s.pos >= N.n THEN Bad(s, "repeat-extra-pass")
            ELSE Ok([s EXCEPT !.pos = IF N.n > 0 THEN @ + 1 ELSE @])
      [] N.t = "concat" ->
            IF k # s.pos + 1 THEN Bad(s, "concat-order") ELSE Ok([s EXCEPT !.pos = @ + 1])
      [] N.t = "batch" ->
            Ok([PushQ(s, IF s.buf # <<>> /\ ~N.dl THEN BatchQ(N, s.buf) ELSE <<>>)
                EXCEPT !.buf = <<>>, !.ce = TRUE])
      [] N.t = "group" ->
            Ok([s EXCEPT !.ce = TRUE, !.bk = NoBuckets(N),
                !.fin = IF N.dl THEN {}
                        ELSE UNION {ToSet(BatchQ(N, s.bk[g])) : g \in {h \in 1..N.mod : s.bk[h] # <<>>}}])
      [] N.t = "pack" ->
            Ok([PushQ(s, IF s.buf # <<>> THEN PackQ(N, s.buf) ELSE <<>>)
                EXCEPT !.buf = <<>>, !.ce = TRUE])
      [] OTHER -> Ok([s EXCEPT !.ce = TRUE])

\* A new pass over the child must not start before everything of the last one was yielded
ChildIter(N, s, k) ==
    IF Buffering(N.t) /\ s.ce /\ ~Drained(s) THEN Bad(s, N.t \o "-restarted-before-drained")
    ELSE IF N.t = "repeat" /\ N.n > 0 /\ s.pos >= N.n THEN Bad(s, "repeat-extra-pass")
    ELSE Ok([s EXCEPT !.ce = FALSE])

\* Only a limit starts its source over; any other reset comes from above
ChildReset(N, s) ==
    IF N.t = "limit" THEN Ok([s EXCEPT !.q = <<>>])
    ELSE IF s = Start(N) THEN Ok(s)
    ELSE Bad(s, N.t \o "-resets-inner")

---------------------------------------------------------------------------
(* One event of a pipeline P in state st (a sequence of node states).      *)

ParentOf(P, n) ==
    IF \E p \in (n + 1)..Len(P) : In(n, P[p].c)
    THEN CHOOSE p \in (n + 1)..Len(P) : In(n, P[p].c) ELSE 0
ChildNo(N, n) == CHOOSE k \in 1..Len(N.c) : N.c[k] = n

Apply(P, st, e, w, W) ==
    LET N == P[e.n]
        s == st[e.n]
        cs == [k \in 1..Len(N.c) |-> st[N.c[k]]]
        own == CASE e.e = "i" -> Ok([s EXCEPT !.it = TRUE])
                 [] e.e = "o" -> OwnOut(N, s, e.v, w, W)
                 [] e.e = "h" -> OwnHandler(N, s, e.v)
                 [] e.e = "x" -> OwnFatal(N, s)
                 [] e.e = "e" -> OwnEnd(N, s, cs, w, W)
                 [] e.e = "r" -> Ok(Start(N))
        p == ParentOf(P, e.n)
        par == IF p = 0 \/ e.e \in {"h", "x"} THEN [s |-> 0, bad |-> ""]
               ELSE LET k == ChildNo(P[p], e.n)
                    IN CASE e.e = "o" -> ChildOut(P[p], st[p], k, e.v, w, W)
                         [] e.e = "e" -> ChildEnd(P[p], st[p], k)
                         [] e.e = "i" -> ChildIter(P[p], st[p], k)
                         [] e.e = "r" -> ChildReset(P[p], st[p])
        st1 == [st EXCEPT ![e.n] = own.s]
        st2 == IF p = 0 \/ e.e \in {"h", "x"} THEN st1 ELSE [st1 EXCEPT ![p] = par.s]
    IN [st |-> st2, bad |-> IF own.bad # "" THEN own.bad ELSE par.bad]
=============================================================================
