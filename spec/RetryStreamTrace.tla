------------------------- MODULE RetryStreamTrace -------------------------
(***************************************************************************)
(* Judges recorded histories of the real stream.  Events:                  *)
(*  [e |-> "r", n, v, err, fails, tell]  read(n) returned the bytes v, or  *)
(*       failed; `fails` low level failures happened meanwhile             *)
(*  [e |-> "s", n, wh, ret, tell]        seek(n, wh)                       *)
(* A read which failed may have advanced the position by the bytes it had  *)
(* read already.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Limit == 10
VARIABLES tid, i, pos, bad
vars == <<tid, i, pos, bad>>
T == Traces[tid]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Plain(p, n) == LET q == IF n < 0 THEN T.size ELSE Max(p, Min(p + n, T.size))
               IN [k \in 1..(q - p) |-> T.base + p + k]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ pos = 0 /\ bad = ""

Step ==
    LET e == T.ev[i + 1]
    IN IF e.e = "r" THEN
          IF e.err THEN
             /\ pos' = e.tell
             /\ bad' = IF e.fails < Limit THEN "gave-up-early"
                       ELSE IF e.tell < pos \/ (e.tell > pos + Len(Plain(pos, e.n))) THEN "position-after-error"
                       ELSE ""
          ELSE
             LET p == Plain(pos, e.n)
             IN /\ pos' = pos + Len(p)
                /\ bad' = IF e.v # p THEN
                              (IF Len(e.v) < Len(p) THEN "bytes-missing"
                               ELSE IF Len(e.v) > Len(p) THEN "too-many-bytes" ELSE "wrong-bytes")
                          ELSE IF e.fails >= Limit THEN "did-not-give-up"
                          ELSE IF e.tell # pos + Len(p) THEN "tell" ELSE ""
       ELSE
          LET o == e.n + (CASE e.wh = 0 -> 0 [] e.wh = 1 -> pos [] e.wh = 2 -> T.size)
              c == Min(Max(o, 0), T.size)
          IN /\ pos' = c
             /\ bad' = IF e.tell # c \/ e.ret # c THEN "seek" ELSE ""

Next == /\ bad = "" /\ i < Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tid
        /\ Step
        /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
        /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
