---------------------------- MODULE PrepareTrace ----------------------------
(***************************************************************************)
(* Judges runs of the real preparation.  shards: [good, count, keys] in    *)
(* the given order (keys = numbers of the sample names), mode, ratio,      *)
(* match, shuffled, names of parts numbered; events [e, v]:                *)
(*  info  v = <<shard, count>> pairs         split v = parts (shard numbers)*)
(*  idx   v = shards with an index           left v = number of other files *)
(*  load  p, v = <<shard, key>> in order of loading part p                  *)
(*  found v = set of file part numbers found; all, the ones there are       *)
(*  again v = parts, of a second run                                        *)
(*  died  v = <<shard, entries>> of indices after a killed run              *)
(***************************************************************************)
EXTENDS PrepareOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, split, bad
vars == <<tid, i, split, bad>>
T == Traces[tid]
Range(f) == {f[k] : k \in DOMAIN f}
NoDup(s) == \A a, b \in DOMAIN s : a # b => s[a] # s[b]
SplitBad(v) ==
    LET kept == Kept(T.shards)
        Cat[p \in 0..Len(v)] == IF p = 0 THEN <<>> ELSE Cat[p - 1] \o v[p]
        cat == Cat[Len(v)]
    IN CASE T.mode = "pattern" -> IF PatternOk(v, T.match, kept) THEN "" ELSE "wrong-pattern-split"
         [] T.shuffled -> IF NoDup(cat) /\ Range(cat) = Range(kept) /\ RatioOk(v, T.ratio, cat) THEN "" ELSE "wrong-ratio-split"
         [] OTHER -> IF RatioOk(v, T.ratio, kept) THEN "" ELSE "wrong-ratio-split"
Loaded(p) == LET S[k \in 0..Len(split[p])] ==
                 IF k = 0 THEN <<>> ELSE S[k - 1] \o [j \in 1..Len(T.shards[split[p][k]].keys) |-> <<split[p][k], T.shards[split[p][k]].keys[j]>>]
             IN S[Len(split[p])]
Judge(e) ==
    CASE e.e = "info" -> IF Range(e.v) = {<<k, T.shards[k].count>> : k \in Range(Kept(T.shards))} THEN "" ELSE "wrong-counts"
      [] e.e = "split" -> SplitBad(e.v)
      [] e.e = "again" -> IF e.v = split THEN "" ELSE "not-deterministic"
      [] e.e = "idx" -> IF \A k \in DOMAIN T.shards : k \in Range(e.v) => T.shards[k].good
                           THEN IF Range(Kept(T.shards)) \subseteq Range(e.v) THEN "" ELSE "index-missing"
                           ELSE "index-of-broken-shard"
      [] e.e = "left" -> IF e.v = <<>> THEN "" ELSE "left-over-files"
      [] e.e = "load" -> IF e.v = Loaded(e.p) THEN "" ELSE "loads-other-samples"
      [] e.e = "found" -> \* Many different parts: only some have to be named
                           IF /\ Range(e.v) \subseteq Range(T.all)
                              /\ Cardinality(Range(e.v)) >= (IF Cardinality(Range(T.all)) < 50 THEN Cardinality(Range(T.all)) ELSE 50) THEN "" ELSE "wrong-parts-found"
      [] e.e = "died" -> IF \A k \in DOMAIN e.v : e.v[k][2] = T.shards[e.v[k][1]].count + 1 THEN "" ELSE "partial-index"
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ split = <<>> /\ bad = ""
Next == /\ bad = "" /\ i < Len(T.ev) /\ i' = i + 1
         /\ LET e == T.ev[i + 1]
            IN /\ split' = IF e.e = "split" THEN e.v ELSE split
               /\ bad' = Judge(e)
         /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
         /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))
         /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
