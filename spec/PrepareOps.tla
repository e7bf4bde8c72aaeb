----------------------------- MODULE PrepareOps -----------------------------
(* What preparing writes, as functions of the shards in their (shuffled) order. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kept(shards) == SelectSeq([k \in 1..Len(shards) |-> k], LAMBDA k : shards[k].good /\ shards[k].count > 0)
Sum(f) == LET S[k \in 0..Len(f)] == IF k = 0 THEN 0 ELSE S[k - 1] + f[k] IN S[Len(f)]
\* the end of part p deviates by less than one from its exact place
RatioOk(parts, ratio, order) ==
    LET n == Len(order)  tot == Sum(ratio)
        cum(p) == Sum(SubSeq(ratio, 1, p))
        size == [p \in 1..Len(parts) |-> Len(parts[p])]
        ends(p) == Sum(SubSeq(size, 1, p))
        Cat[p \in 0..Len(parts)] == IF p = 0 THEN <<>> ELSE Cat[p - 1] \o parts[p]
        Abs(x) == IF x < 0 THEN -x ELSE x
    IN /\ Len(parts) = Len(ratio)
       /\ Cat[Len(parts)] = order
       /\ \A p \in 1..Len(parts) : Abs(ends(p) * tot - n * cum(p)) < tot
PatternOk(parts, match, order) ==
    /\ Len(parts) = Len(match)
    /\ \A p \in 1..Len(parts) : parts[p] = SelectSeq(order, LAMBDA k : match[p][k])
=============================================================================
