----------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* Judges the deliveries of real loaders of all ranks in several layouts   *)
(* of one number G of global workers, dataset and seed.                    *)
(*                                                                         *)
(* A trace: G, ref[g + 1]: the stream of global worker g in the reference  *)
(* layout (one worker per rank), strict: all streams are endless, evs:     *)
(*   "L" w     a layout with w workers per rank starts                     *)
(*   "r" r     the deliveries of rank r follow                             *)
(*   "d" w v   the rank delivers v, read by local worker w, -1: end        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, N, r, cnt, pos, bad
vars == <<tid, i, N, r, cnt, pos, bad>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0 /\ N = 1 /\ r = 0 /\ cnt = 0 /\ bad = ""
        /\ pos = [g \in 0..(T.G - 1) |-> 0]

Deliver(e) ==
    IF e.w = -1
    THEN /\ bad' = IF T.strict THEN "endless-stream-ended" ELSE ""
         /\ UNCHANGED <<cnt, pos>>
    ELSE LET g == r * N + e.w
             p == pos[g] + 1
         IN /\ pos' = [pos EXCEPT ![g] = p]
            /\ cnt' = cnt + 1
            /\ bad' = IF T.strict /\ e.w # cnt % N THEN "workers-not-in-turn"
                      ELSE IF p > Len(T.ref[g + 1]) THEN (IF T.strict THEN "beyond-reference" ELSE "")
                      ELSE IF T.ref[g + 1][p] # e.v THEN "stream-depends-on-layout"
                      ELSE ""

Step ==
    LET e == T.evs[i + 1]
    IN CASE e.e = "d" -> Deliver(e) /\ UNCHANGED <<N, r>>
         [] e.e = "L" -> /\ N' = e.w /\ r' = 0 /\ cnt' = 0 /\ bad' = ""
                         /\ pos' = [g \in 0..(T.G - 1) |-> 0]
         [] e.e = "r" -> r' = e.w /\ cnt' = 0 /\ bad' = "" /\ UNCHANGED <<N, pos>>

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ Step
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
