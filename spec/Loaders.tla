------------------------------ MODULE Loaders -------------------------------
(***************************************************************************)
(* Any number of loaders of one configuration, living next to each other,  *)
(* and states saved from them.  The configuration determines one stream    *)
(* `ref`; every loader is a cursor into it, a saved state is an immutable  *)
(* copy of a cursor, a restore key names one position of the stream.       *)
(* Nothing any loader does influences another loader, a saved state or     *)
(* the meaning of a key.                                                   *)
(*                                                                         *)
(* Events:  "N" l          loader l is created (replaces an old l)         *)
(*          "R" l k        state k is restored into a new loader l         *)
(*          "A" l k        state k is restored into the running loader l   *)
(*          "d" l w v      l delivers v of worker w  (w = -1: end of epoch) *)
(*          "s" l k v      the state of l is saved as k, v: its contents   *)
(*          "h" k v        the contents of saved state k are v now         *)
(*          "g" l k v      loader l resolves the key of position k to v    *)
(*          "q" k w        restoring k elsewhere: w = 1 refused, 0 accepted *)
(*          "u" v          draws which all have to differ                  *)
(*                                                                         *)
(* Restored loaders with several workers: as in Resume.tla (`strict`).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, ld, st, bad
vars == <<tid, i, ld, st, bad>>
T == Traces[tid]
Ref == T.ref

IsEnd(r) == r.w = -1
LaneSeq(w) == SelectSeq(Ref, LAMBDA r : r.w = w)
NextEnd(c) == IF \E k \in c..Len(Ref) : IsEnd(Ref[k])
              THEN CHOOSE k \in c..Len(Ref) : IsEnd(Ref[k]) /\ \A j \in c..(k - 1) : ~IsEnd(Ref[j])
              ELSE Len(Ref) + 1
Workers(a, b) == {Ref[k].w : k \in a..b} \ {-1}
Full(c) == Workers(c, NextEnd(c) - 1) = 0..(T.W - 1)

Zero == [cur |-> 1, lane |-> [w \in 0..(T.W - 1) |-> 0], strict |-> TRUE, restored |-> FALSE, fresh |-> FALSE]
Known == ~T.all /\ T.W > 1

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0 /\ bad = ""
        /\ ld = [l \in {0} |-> [cur |-> 1]]
        /\ st = [k \in {0} |-> [cur |-> 1]]

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

Restored(s) == [cur |-> s.cur, lane |-> s.lane, restored |-> TRUE, fresh |-> TRUE,
                strict |-> s.strict /\ (Known /\ T.fin => Full(s.cur))]

Deliver(e) ==
    LET s == ld[e.l]
        c == IF s.fresh /\ s.cur <= Len(Ref) /\ IsEnd(Ref[s.cur]) /\ (e.w # -1 \/ e.v # Ref[s.cur].v)
             THEN s.cur + 1 ELSE s.cur
        lane == IF e.w = -1 THEN s.lane ELSE [s.lane EXCEPT ![e.w] = @ + 1]
        ls == IF e.w = -1 THEN <<>> ELSE LaneSeq(e.w)
    IN /\ ld' = [ld EXCEPT ![e.l] =
            [cur |-> c + 1, lane |-> lane, restored |-> s.restored, fresh |-> FALSE,
             strict |-> s.strict /\ ~(Known /\ s.restored /\ e.w = -1)]]
       /\ bad' = IF s.strict /\ c > Len(Ref) THEN (IF Known THEN "" ELSE "beyond-reference")
                 ELSE IF s.strict /\ (Ref[c].w # e.w \/ Ref[c].v # e.v) THEN T.what \o "-stream-differs"
                 ELSE IF e.w # -1 /\ lane[e.w] <= Len(ls) /\ ls[lane[e.w]].v # e.v
                      THEN T.what \o "-worker-stream-differs"
                 ELSE ""
       /\ UNCHANGED st

Step ==
    LET e == T.ev[i + 1]
    IN CASE e.e = "d" -> Deliver(e)
         [] e.e = "N" -> ld' = Put(ld, e.l, Zero) /\ bad' = "" /\ UNCHANGED st
         [] e.e \in {"R", "A"} -> ld' = Put(ld, e.l, Restored(st[e.k])) /\ bad' = "" /\ UNCHANGED st
         [] e.e = "s" -> /\ st' = Put(st, e.k, [cur |-> ld[e.l].cur, lane |-> ld[e.l].lane, strict |-> ld[e.l].strict, h |-> e.v])
                         /\ bad' = "" /\ UNCHANGED ld
         [] e.e = "h" -> /\ bad' = IF st[e.k].h # e.v THEN T.what \o "-saved-state-changed" ELSE ""
                         /\ UNCHANGED <<ld, st>>
         [] e.e = "g" -> /\ bad' = IF Ref[e.k].v # e.v THEN T.what \o "-key-names-other-sample" ELSE ""
                         /\ UNCHANGED <<ld, st>>
         [] e.e = "q" -> /\ bad' = IF e.w = 1 THEN "" ELSE T.what \o "-foreign-state-accepted"
                         /\ UNCHANGED <<ld, st>>
         [] e.e = "u" -> /\ bad' = IF Cardinality({e.v[j] : j \in 1..Len(e.v)}) = Len(e.v) THEN "" ELSE T.what \o "-draws-repeat"
                         /\ UNCHANGED <<ld, st>>

Next ==
    /\ bad = "" /\ i < Len(T.ev)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ Step
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
