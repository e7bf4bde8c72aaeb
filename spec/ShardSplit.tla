---------------------------- MODULE ShardSplit ----------------------------
(***************************************************************************)
(* How the samples of a sequence of datasets are divided over the G global *)
(* workers.  A dataset is a sequence of shards with sample counts.  The    *)
(* remainder samples of a dataset go to the workers following those which  *)
(* got the remainder of the dataset before (`rot`), in an order given by a *)
(* permutation of the workers.  A worker's part is cut at the shard        *)
(* boundaries, and optionally into slices of about MaxSeq samples.         *)
(* Checked: every sample is in exactly one slice of one worker; parts are  *)
(* contiguous and balanced; so are the totals.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxG, MaxShards, MaxCount, MaxSeqs, NSets

VARIABLES G, rot, loads, sets, last
vars == <<G, rot, loads, sets, last>>

Sum(f) == LET S[k \in 0..Len(f)] == IF k = 0 THEN 0 ELSE S[k - 1] + f[k] IN S[Len(f)]
Prefix(f, k) == Sum(SubSeq(f, 1, k))

\* The order in which workers get the remainder samples
RECURSIVE BitRev(_)
Interleave(a, b) == [k \in 1..(Len(a) + Len(b)) |->
    IF k <= 2 * Len(a) THEN (IF k % 2 = 1 THEN a[(k + 1) \div 2] ELSE b[k \div 2]) ELSE b[Len(a) + (k - 2 * Len(a))]]
BitRev(s) == IF Len(s) <= 2 THEN s
             ELSE LET m == Len(s) \div 2 IN Interleave(BitRev(SubSeq(s, 1, m)), BitRev(SubSeq(s, m + 1, Len(s))))
Perm == BitRev([k \in 1..G |-> k])

\* Number of samples of each worker
Size(n) == LET base == n \div G  rem == n % G
           IN [w \in 1..G |-> base + (IF \E k \in 0..(rem - 1) : Perm[((rot + k) % G) + 1] = w THEN 1 ELSE 0)]

\* Slices <<shard, offset, count>> of the samples [a, b) of a dataset
CeilDiv(x, y) == (x + y - 1) \div y
Pieces(sh, a, b) == LET P(s) == LET lo == Prefix(sh, s - 1)  hi == lo + sh[s]
                                    x == IF a > lo THEN a ELSE lo   y == IF b < hi THEN b ELSE hi
                                IN IF y > x THEN <<<<s, x - lo, y - x>>>> ELSE <<>>
                        All[s \in 0..Len(sh)] == IF s = 0 THEN <<>> ELSE All[s - 1] \o P(s)
                    IN All[Len(sh)]
Cut(p, m) == IF m = 0 \/ 2 * p[3] <= 3 * m THEN <<p>>
             ELSE LET k == (2 * p[3] + m) \div (2 * m)
                  IN [j \in 1..k |-> <<p[1], p[2] + ((j - 1) * p[3]) \div k, ((j * p[3]) \div k) - (((j - 1) * p[3]) \div k)>>]
CutAll(ps, m) == LET C[k \in 0..Len(ps)] == IF k = 0 THEN <<>> ELSE C[k - 1] \o Cut(ps[k], m) IN C[Len(ps)]
Parts(sh, m) == LET sz == Size(Sum(sh))
                IN [w \in 1..G |-> CutAll(Pieces(sh, Prefix(sz, w - 1), Prefix(sz, w)), m)]

ShardLists == UNION {[1..k -> 0..MaxCount] : k \in 1..MaxShards}

Init == G \in 1..MaxG /\ rot = 0 /\ loads = [w \in 1..G |-> 0] /\ sets = 0 /\ last = <<<<0>>, 0, <<>>>>

Add(sh, m) ==
    LET n == Sum(sh)
        sz == Size(n)
        nl == [w \in 1..G |-> loads[w] + sz[w]]
        lo == CHOOSE x \in {nl[w] : w \in 1..G} : \A w \in 1..G : x <= nl[w]
    IN /\ sets < NSets
       /\ sets' = sets + 1
       /\ rot' = (rot + n) % G
       \* only differences matter
       /\ loads' = [w \in 1..G |-> nl[w] - lo]
       /\ last' = <<sh, m, Parts(sh, m)>>
       /\ UNCHANGED G

Next == \E sh \in ShardLists, m \in 0..MaxSeqs : Add(sh, m)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
Flat(ps) == LET F[w \in 0..Len(ps)] == IF w = 0 THEN <<>> ELSE F[w - 1] \o ps[w] IN F[Len(ps)]
Balanced == \A v, w \in 1..G : loads[v] - loads[w] <= 1
Covers == sets > 0 =>
    LET sh == last[1]  f == Flat(last[3])
        At(p) == Prefix(sh, p[1] - 1) + p[2]
    IN /\ \A k \in 1..Len(f) : f[k][3] > 0 /\ f[k][2] >= 0 /\ f[k][2] + f[k][3] <= sh[f[k][1]]
       /\ \A k \in 1..(Len(f) - 1) : At(f[k + 1]) = At(f[k]) + f[k][3]
       /\ (f # <<>> => At(f[1]) = 0 /\ At(f[Len(f)]) + f[Len(f)][3] = Sum(sh))
       /\ (f = <<>> => Sum(sh) = 0)
PartSize(ps) == Sum([k \in 1..Len(ps) |-> ps[k][3]])
Even == sets > 0 => \A v, w \in 1..G : PartSize(last[3][v]) - PartSize(last[3][w]) <= 1
AboutMax == sets > 0 /\ last[2] > 0 => \A w \in 1..G : \A k \in 1..Len(last[3][w]) :
    /\ 2 * last[3][w][k][3] <= 3 * last[2] + 2
    /\ (k > 1 /\ last[3][w][k - 1][1] = last[3][w][k][1]) => 2 * last[3][w][k][3] >= last[2] /\ 2 * last[3][w][k - 1][3] >= last[2]
=============================================================================
