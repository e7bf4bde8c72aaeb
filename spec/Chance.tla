------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* Judges random choices by counting, and reported lengths.  A trace has   *)
(* what and                                                                *)
(*   "blend"   wt: weights, v: the source of each sample of one worker     *)
(*   "shuffle" size, m: v is what a buffer of that size yields of passes   *)
(*             over 1..m                                                   *)
(*   "length"  len: the reported length, v: numbers of samples delivered   *)
(*             in each pass                                                *)
(* N independent choices of an event of probability a/b are less than six  *)
(* standard deviations from N*a/b (both sides times b):                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Abs(x) == IF x < 0 THEN -x ELSE x
Near(c, N, a, b) == LET d == Abs(c * b - N * a)
                    IN d < 46000 /\ d * d <= 36 * N * a * (b - a)
Range(s) == {s[k] : k \in DOMAIN s}
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Sum(s) == LET S[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE S[k - 1] + s[k] IN S[Len(s)]

\* pairs of neighbours, each choice in one of them
Pairs(s) == [k \in 1..(Len(s) \div 2) |-> <<s[2 * k - 1], s[2 * k]>>]

Blend(T) ==
    LET n == Len(T.v)
        s == Sum(T.wt)
        p == TLCEval(Pairs(T.v))
    IN IF Range(T.v) \ DOMAIN T.wt # {} THEN "unknown-source"
       ELSE IF \E j \in DOMAIN T.wt : T.wt[j] = 0 /\ j \in Range(T.v) THEN "source-of-weight-zero"
       ELSE IF \E j \in DOMAIN T.wt : ~Near(Count(T.v, j), n, T.wt[j], s) THEN "wrong-frequency"
       ELSE IF \E j, k \in DOMAIN T.wt : ~Near(Count(p, <<j, k>>), Len(p), T.wt[j] * T.wt[k], s * s) THEN "choices-depend-on-each-other"
       ELSE ""

\* The content of the buffer when the k-th sample of a pass is taken, and the age rank of that
Buffer(T, pass, k) == {x \in 1..T.m : x <= T.size + k - 1} \ {T.v[pass * T.m + j] : j \in 1..(k - 1)}
Rank(T, pass, k) == LET B == Buffer(T, pass, k)
                        x == T.v[pass * T.m + k]
                    IN IF x \in B THEN Cardinality({y \in B : y <= x}) ELSE 0
Shuffle(T) ==
    LET passes == Len(T.v) \div T.m
        r == TLCEval([i \in 1..(passes * T.m) |-> Rank(T, (i - 1) \div T.m, ((i - 1) % T.m) + 1)])
        \* the buffer holds b samples
        held(k) == IF T.m - k + 1 < T.size THEN T.m - k + 1 ELSE T.size
        at(b) == TLCEval(SelectSeq([i \in 1..(passes * T.m) |-> <<held(((i - 1) % T.m) + 1), r[i]>>], LAMBDA z : z[1] = b))
        full == TLCEval(at(IF T.m < T.size THEN T.m ELSE T.size))
        p == TLCEval(Pairs(full))
        S == IF T.m < T.size THEN T.m ELSE T.size
    IN IF 0 \in Range(r) THEN "not-in-the-buffer"
       ELSE IF \E b \in 2..S : LET a == at(b) IN \E x \in 1..b : ~Near(Count(a, <<b, x>>), Len(a), 1, b) THEN "not-equally-likely"
       ELSE IF S > 1 /\ \E x, y \in 1..S : ~Near(Count(p, <<<<S, x>>, <<S, y>>>>), Len(p), 1, S * S) THEN "choices-depend-on-each-other"
       ELSE ""

Verdict(T) == CASE T.what = "blend" -> Blend(T)
                [] T.what = "shuffle" -> Shuffle(T)
                [] T.what = "length" -> IF \A k \in DOMAIN T.v : T.v[k] = T.len THEN "" ELSE "wrong-length"

VARIABLES tid, i, bad
vars == <<tid, i, bad>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""
Next == /\ i = 0 /\ i' = 1 /\ UNCHANGED tid
        /\ bad' = Verdict(Traces[tid])
        /\ (bad' # "" => PrintT(<<"REJECT", tid, i', bad'>>))
        /\ (bad' = "" => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
