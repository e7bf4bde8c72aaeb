--------------------------- MODULE TarShardTrace ---------------------------
(***************************************************************************)
(* Judges reads of real shards.  es = entries (with p = byte position of   *)
(* the header), end = size of the content; the range off, cnt; excl;       *)
(* filt.  Events:                                                          *)
(*  "d" b, i, parts  next delivered sample (base, index of its restore key)*)
(*  "e"              end of the range                                      *)
(*  "s"/"R" i        save to / continue from a slot                        *)
(*  "g" i, b, parts  the sample restored by the key with index i           *)
(*  "x" pos          the index file of the shard                           *)
(*  "c" i            the recorded number of samples                        *)
(***************************************************************************)
EXTENDS TarShard, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, n, slots, bad
vars == <<tid, i, n, slots, bad>>
T == Traces[tid]
Range(f) == {f[k] : k \in DOMAIN f}
Exp == Expected(T.es, T.off, T.cnt, Range(T.excl), Range(T.filt))
Same(parts, want) == Len(parts) = Len(want) /\ Range(parts) = Range(want)
IndexOf == [k \in 1..Len(Starts(T.es)) |-> T.es[Starts(T.es)[k]].p]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ n = 0 /\ slots = <<>> /\ bad = ""

Judge(e, want) == IF e.b # want[2].b THEN "wrong-sample"
                  ELSE IF e.i # want[1] THEN "wrong-restore-key"
                  ELSE IF ~Same(e.parts, want[2].parts) THEN "wrong-parts" ELSE ""
Step ==
    LET e == T.ev[i + 1]
    IN CASE e.e = "d" -> /\ n' = n + 1 /\ UNCHANGED slots
                         /\ bad' = IF n >= Len(Exp) THEN "too-many-samples" ELSE Judge(e, Exp[n + 1])
         [] e.e = "e" -> n' = 0 /\ UNCHANGED slots /\ bad' = IF n < Len(Exp) THEN "samples-lost" ELSE ""
         [] e.e = "s" -> slots' = Append(slots, n) /\ UNCHANGED n /\ bad' = ""
         [] e.e = "R" -> n' = slots[e.i] /\ UNCHANGED slots /\ bad' = ""
         [] e.e = "g" -> /\ UNCHANGED <<n, slots>>
                         /\ LET s == IF e.i < 0 THEN [b |-> 0, parts |-> <<>>] ELSE Samples(T.es)[e.i + 1]
                            IN bad' = IF e.i < 0 \/ Judge(e, <<e.i, Filter(s, Range(T.filt))>>) # "" THEN "restored-other-sample" ELSE ""
         [] e.e = "x" -> /\ UNCHANGED <<n, slots>>
                         /\ bad' = IF e.parts # Append(IndexOf, T.end) THEN "wrong-index" ELSE ""
         [] e.e = "c" -> UNCHANGED <<n, slots>> /\ bad' = IF e.i # Len(Samples(T.es)) THEN "wrong-count" ELSE ""

Next == /\ bad = "" /\ i < Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tid
        /\ Step
        /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
        /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
