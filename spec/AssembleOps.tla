---------------------------- MODULE AssembleOps -----------------------------
(***************************************************************************)
(* What a loader makes of the samples of one worker.  A sample is a        *)
(* number; results are sequences of tokens which say what was applied.     *)
(* c: cook, enc ("none", "plain", "skip", "gen"), pack (0: none), group,   *)
(* bs (0: none), drop, eb (as enc).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Elems(l) == {l[k] : k \in 1..Len(l)}
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
RECURSIVE Chunks(_, _)
Chunks(k, l) == IF l = <<>> THEN <<>> ELSE IF Len(l) <= k THEN <<l>> ELSE <<SubSeq(l, 1, k)>> \o Chunks(k, SubSeq(l, k + 1, Len(l)))
Full(k, ch) == SelectSeq(ch, LAMBDA x : Len(x) = k)
Toks(l) == Flat([j \in 1..Len(l) |-> l[j].t])

\* An item: its (first) number and tokens
Raw(c, x) == [i |-> x, t |-> IF c.cook THEN <<"C", ToString(x)>> ELSE <<ToString(x)>>]
Copies(kind, a, x) == CASE kind = "none" -> <<x>>
                        [] kind = "plain" -> <<[x EXCEPT !.t = <<a, "0">> \o @]>>
                        [] kind = "skip" -> IF x.i % 3 = 0 THEN <<>> ELSE <<[x EXCEPT !.t = <<a, "0">> \o @]>>
                        [] OTHER -> [j \in 1..(x.i % 3) |-> [x EXCEPT !.t = <<a, ToString(j - 1)>> \o @]]
Apply(kind, a, l) == Flat([j \in 1..Len(l) |-> Copies(kind, a, l[j])])

\* Packs: a buffer gives the odd numbers, then the even ones, in pairs
Wrap(a, l, b) == [i |-> l[1].i, t |-> <<a>> \o Toks(l) \o <<b>>]
Odd(x) == x.i % 2 = 1
Even(x) == x.i % 2 = 0
Select(l) == Chunks(2, SelectSeq(l, Odd)) \o Chunks(2, SelectSeq(l, Even))
Pack(k, l, end) == LET ch == TLCEval(Chunks(k, l)) IN
                   Flat([j \in 1..Len(ch) |-> IF ~end /\ Len(ch[j]) < k THEN <<>>
                                              ELSE LET s == Select(ch[j]) IN [n \in 1..Len(s) |-> Wrap("P", s[n], "p")]])

\* Groups: full ones leave in the order in which they become full, then the rest by first appearance
Size(c, odd) == IF c.bs > 0 THEN c.bs ELSE IF odd THEN 2 ELSE 3
RECURSIVE Grouped(_, _, _, _, _)
Grouped(c, l, o, e, first) ==
    IF l = <<>> THEN LET rest == SelectSeq(IF first = "e" THEN <<e, o>> ELSE <<o, e>>, LAMBDA x : x # <<>>)
                     IN [out |-> <<>>, rest |-> rest]
    ELSE LET x == Head(l)
             b == Append(IF Odd(x) THEN o ELSE e, x)
             full == Len(b) = Size(c, Odd(x))
             nb == IF full THEN <<>> ELSE b
             r == Grouped(c, Tail(l), IF Odd(x) THEN nb ELSE o, IF Odd(x) THEN e ELSE nb,
                          IF first = "" THEN (IF Odd(x) THEN "o" ELSE "e") ELSE first)
         IN IF full THEN [r EXCEPT !.out = <<b>> \o @] ELSE r
Groups(c, l, end) == LET r == TLCEval(Grouped(c, l, <<>>, <<>>, "")) IN IF end /\ ~c.drop THEN r.out \o r.rest ELSE r.out

Batches(c, l, end) ==
    LET ch == TLCEval(IF c.group THEN Groups(c, l, end)
                      ELSE IF end /\ ~c.drop THEN Chunks(c.bs, l) ELSE Full(c.bs, Chunks(c.bs, l)))
    IN [j \in 1..Len(ch) |-> Wrap("B", ch[j], "b")]

\* l: the samples; end: there are no more
Compose(c, l, end) ==
    LET s0 == [j \in 1..Len(l) |-> Raw(c, l[j])]
        s1 == TLCEval(Apply(c.enc, "E", s0))
        s2 == TLCEval(IF c.pack = 0 THEN s1 ELSE Pack(c.pack, s1, end))
        s3 == TLCEval(IF c.bs = 0 /\ ~c.group THEN s2 ELSE Batches(c, s2, end))
        s4 == TLCEval(IF c.bs = 0 /\ ~c.group THEN s3 ELSE Apply(c.eb, "X", s3))
    IN [j \in 1..Len(s4) |-> s4[j].t]

\* The part of worker w (from 0) of n workers of what is asked for
Share(k, w, n) == IF n <= 1 THEN k ELSE k \div n + (IF w < k % n THEN 1 ELSE 0)
Take(k, l) == SubSeq(l, 1, IF k < Len(l) THEN k ELSE Len(l))
=============================================================================
