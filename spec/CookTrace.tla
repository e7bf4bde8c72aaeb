------------------------------ MODULE CookTrace -----------------------------
(***************************************************************************)
(* Judges what the cooking of a stream of samples delivers.                *)
(*                                                                         *)
(* A trace: cookers (CookOps), src: the samples in order, evs:             *)
(*   "d" i by sub subs keys   sample i was delivered, cooked by cooker by  *)
(*        with these subflavors; keys: key and restore key carried over    *)
(*   "x" i     the error of sample i ended the stream                      *)
(*   "k" i by sub subs keys   sample i was restored by its key             *)
(*   "e"       the epoch ended                                             *)
(* skip: samples whose cookers drop them; direct: the encoder was called   *)
(* for every sample itself, otherwise errors are handled by dropping       *)
(***************************************************************************)
EXTENDS CookOps, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, pos, bad
vars == <<tid, i, pos, bad>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ pos = 0 /\ bad = ""

Dropped(s) == LET c == Cooker(T.cookers, s)
              IN ~T.direct /\ (c = -1 \/ (c > 0 /\ s.id \in Range(T.skip)))
\* Next position which is not dropped, Len + 1 at the end
RECURSIVE After(_)
After(p) == IF p <= Len(T.src) /\ Dropped(T.src[p]) THEN After(p + 1) ELSE p

Same(e, s) ==
    LET c == Cooker(T.cookers, s)
    IN IF c = -1 THEN "uncooked-sample-passed-on"
       ELSE IF e.by # c THEN "wrong-cooker"
       ELSE IF e.sub # s.sub \/ Range(e.subs) # Range(s.subs) THEN "subflavors-changed"
       ELSE IF ~e.keys THEN "keys-not-carried-over"
       ELSE ""

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1]
           p == After(pos + 1)
       IN CASE e.e = "d" ->
                 /\ pos' = p
                 /\ bad' = IF p > Len(T.src) \/ T.src[p].id # e.i THEN "sample-lost-or-invented"
                           ELSE Same(e, T.src[p])
            [] e.e = "x" ->
                 /\ pos' = p
                 /\ bad' = IF p > Len(T.src) \/ Cooker(T.cookers, T.src[p]) # -1 THEN "error-without-reason" ELSE ""
            [] e.e = "k" ->
                 /\ pos' = pos
                 /\ bad' = LET s == CHOOSE s \in Range(T.src) : s.id = e.i IN Same(e, s)
            [] e.e = "e" ->
                 /\ pos' = 0
                 /\ bad' = IF p <= Len(T.src) THEN "sample-lost" ELSE ""
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
