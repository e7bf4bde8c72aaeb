--------------------------- MODULE ShardSplitGen ---------------------------
(* All small configurations: shards, ranks, workers, limit.                *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS MaxShards, MaxCount, MaxG, MaxSeqs
Conf == {[shards |-> s, ranks |-> r, workers |-> n, m |-> m, rot |-> o] :
    s \in UNION {[1..k -> 0..MaxCount] : k \in 1..MaxShards}, r \in 1..MaxG, n \in 0..MaxG, m \in 0..MaxSeqs, o \in 0..1}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({c \in Conf : c.ranks * c.workers <= MaxG /\ \E k \in DOMAIN c.shards : c.shards[k] > 0}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
