------------------------------- MODULE Resume -------------------------------
(***************************************************************************)
(* A loader as a cursor into the one stream its seed and configuration     *)
(* determine.  The stream `ref` is what an uninterrupted loader delivers:  *)
(* entries [w, v] (worker and value), and [w |-> -1, v |-> <<>>] at the    *)
(* end of an epoch.  Saving remembers the cursor, a restored loader        *)
(* continues exactly there, a restore key names one position for ever.     *)
(*                                                                         *)
(* Events:  [e |-> "d", w, v]   the current loader delivers v of worker w  *)
(*          [e |-> "s", k]      its state is saved in slot k               *)
(*          [e |-> "R", k]      a new loader, restored from slot k, runs   *)
(*          [e |-> "N"]         a new loader starts from the beginning     *)
(*          [e |-> "g", k, v]   the restore key of position k yields v     *)
(*                                                                         *)
(* The cursor is kept globally (cur) and per worker (lane).  With two or   *)
(* more workers and finite epochs the library has two recorded deviations  *)
(* (DESIGN.md, known findings): a loader restored in the tail of an epoch, *)
(* where some worker is exhausted already, and later epochs of a restored  *)
(* loader interleave the workers differently.  There, `strict` is dropped  *)
(* and each worker's stream has to continue exactly on its own.  Traces    *)
(* with all = TRUE stay strict throughout.                                 *)
(* A state saved after the last sample of an epoch may continue directly   *)
(* with the next epoch.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, cur, lane, strict, slot, fresh, bad
vars == <<tid, i, cur, lane, strict, slot, fresh, bad>>
T == Traces[tid]
Ref == T.ref
Start(n) == [cur |-> 1, lane |-> [w \in 0..(n - 1) |-> 0], strict |-> TRUE]

IsEnd(r) == r.w = -1
\* The values of worker w in the reference
LaneSeq(w) == SelectSeq(Ref, LAMBDA r : r.w = w)

\* First end of an epoch at or after position c (Len + 1 if there is none)
NextEnd(c) == IF \E k \in c..Len(Ref) : IsEnd(Ref[k])
              THEN CHOOSE k \in c..Len(Ref) : IsEnd(Ref[k]) /\ \A j \in c..(k - 1) : ~IsEnd(Ref[j])
              ELSE Len(Ref) + 1
Workers(a, b) == {Ref[k].w : k \in a..b} \ {-1}
\* Every worker still has samples in the epoch at position c
Full(c) == Workers(c, NextEnd(c) - 1) = 0..(T.W - 1)

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0 /\ fresh = FALSE /\ bad = ""
        /\ cur = 1 /\ strict = TRUE
        /\ lane = Start(Traces[tid].W).lane
        /\ slot = [k \in {0} |-> Start(Traces[tid].W)]

Known == ~T.all /\ T.W > 1   \* the recorded deviations may apply

Deliver(e) ==
    LET c == IF fresh /\ cur <= Len(Ref) /\ IsEnd(Ref[cur]) /\ (e.w # -1 \/ e.v # Ref[cur].v) THEN cur + 1 ELSE cur
        l == IF e.w = -1 THEN lane ELSE [lane EXCEPT ![e.w] = @ + 1]
        ls == IF e.w = -1 THEN <<>> ELSE LaneSeq(e.w)
    IN /\ cur' = c + 1
       /\ lane' = l
       /\ fresh' = FALSE
       \* later epochs of a restored loader
       /\ strict' = (strict /\ ~(Known /\ slot[0].cur = 0 /\ e.w = -1))
       /\ bad' = IF strict /\ c > Len(Ref) THEN (IF Known THEN "" ELSE "beyond-reference")
                 ELSE IF strict /\ (Ref[c].w # e.w \/ Ref[c].v # e.v) THEN T.what \o "-stream-differs"
                 ELSE IF e.w # -1 /\ l[e.w] <= Len(ls) /\ ls[l[e.w]].v # e.v
                      THEN T.what \o "-worker-stream-differs"
                 ELSE ""
       /\ UNCHANGED slot

Here == [cur |-> cur, lane |-> lane, strict |-> strict]

\* slot[0] remembers the start; its cur is set to 0 once a restored loader runs
Load(s, restored) ==
    /\ cur' = s.cur
    /\ lane' = s.lane
    /\ strict' = (s.strict /\ (Known /\ restored /\ T.fin => Full(s.cur)))
    /\ slot' = [slot EXCEPT ![0].cur = IF restored THEN 0 ELSE 1]
    /\ fresh' = restored
    /\ bad' = ""

Step ==
    LET e == T.ev[i + 1]
    IN CASE e.e = "d" -> Deliver(e)
         [] e.e = "s" -> /\ slot' = [k \in DOMAIN slot \cup {e.k} |-> IF k = e.k THEN Here ELSE slot[k]]
                         /\ UNCHANGED <<cur, lane, strict, fresh, bad>>
         [] e.e = "R" -> Load(slot[e.k], TRUE)
         [] e.e = "N" -> Load(Start(T.W), FALSE)
         [] e.e = "g" -> /\ bad' = IF Ref[e.k].v # e.v THEN T.what \o "-restore-key-differs" ELSE ""
                         /\ UNCHANGED <<cur, lane, strict, slot, fresh>>

Next ==
    /\ bad = "" /\ i < Len(T.ev)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ Step
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
