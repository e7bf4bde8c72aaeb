-------------------------- MODULE ShardSplitTrace --------------------------
(***************************************************************************)
(* Judges how the real code divides datasets.  Events in global order:     *)
(*  "d"  the next dataset: shards = sample counts, m = slice limit (0:     *)
(*       none, -1: slices are not known)                                   *)
(*  "w"  the next worker                                                   *)
(*  "s"  its next slice (or sample): s, o, c                               *)
(*  "f"  end of the dataset                                                *)
(*  "t"  end of a sequence of datasets                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, sh, m, pos, w, cnt, tot, prev, bad
vars == <<tid, i, sh, m, pos, w, cnt, tot, prev, bad>>
T == Traces[tid]
Sum(f) == LET S[k \in 0..Len(f)] == IF k = 0 THEN 0 ELSE S[k - 1] + f[k] IN S[Len(f)]
Spread(f) == \E a, b \in DOMAIN f : f[a] - f[b] > 1

Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ sh = <<>> /\ m = 0 /\ pos = 0 /\ w = 0
        /\ cnt = <<>> /\ prev = <<0, 0>> /\ tot = [k \in 1..Traces[tid].G |-> 0]

Step ==
    LET e == T.ev[i + 1]
    IN CASE e.e = "d" ->
              /\ sh' = e.shards /\ m' = e.m /\ pos' = 0 /\ w' = 0
              /\ cnt' = [k \in 1..T.G |-> 0] /\ prev' = <<0, 0>> /\ UNCHANGED tot /\ bad' = ""
         [] e.e = "w" ->
              /\ w' = w + 1 /\ prev' = <<0, 0>> /\ UNCHANGED <<sh, m, pos, cnt, tot>>
              /\ bad' = IF w + 1 > T.G THEN "too-many-workers" ELSE ""
         [] e.e = "s" ->
              LET at == Sum(SubSeq(sh, 1, e.s - 1)) + e.o
              IN /\ pos' = at + e.c
                 /\ cnt' = [cnt EXCEPT ![w] = @ + e.c]
                 /\ tot' = [tot EXCEPT ![w] = @ + e.c]
                 /\ prev' = <<e.s, e.c>>
                 /\ UNCHANGED <<sh, m, w>>
                 /\ bad' = IF e.s < 1 \/ e.s > Len(sh) THEN "unknown-shard"
                           ELSE IF e.c < 1 \/ e.o < 0 \/ e.o + e.c > sh[e.s] THEN "slice-outside-shard"
                           ELSE IF at > pos THEN "samples-lost-or-out-of-order"
                           ELSE IF at < pos THEN "samples-repeated-or-out-of-order"
                           ELSE IF m > 0 /\ 2 * e.c > 3 * m + 2 THEN "slice-too-long"
                           ELSE IF m > 0 /\ prev[1] = e.s /\ (2 * e.c < m \/ 2 * prev[2] < m) THEN "slice-too-short"
                           ELSE IF m = 0 /\ prev[1] = e.s THEN "cut-without-limit"
                           ELSE ""
         [] e.e = "f" ->
              /\ UNCHANGED <<sh, m, pos, w, cnt, tot, prev>>
              /\ bad' = IF pos # Sum(sh) THEN "samples-lost"
                        ELSE IF w # T.G THEN "workers-missing"
                        ELSE IF Spread(cnt) THEN "unbalanced" ELSE ""
         [] e.e = "t" ->
              /\ UNCHANGED <<sh, m, pos, w, cnt, tot, prev>>
              /\ bad' = IF Spread(tot) THEN "totals-unbalanced" ELSE ""

Next == /\ bad = "" /\ i < Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tid
        /\ Step
        /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
        /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
