------------------------------ MODULE RankTrace -----------------------------
(***************************************************************************)
(* Judges the states which the ranks of one data parallel group save and   *)
(* restore together.  W: ranks of the group, evs in the order of rounds:   *)
(*   "o" r v       rank r's own state is v (0: none)                       *)
(*   "f" r l       how rank r's stream goes on from its own state          *)
(*   "s" r l       rank r got l from saving (<<>>: nothing)                *)
(*   "D" r         where the round saves to: rank r (0: all)               *)
(*   "c" r v       rank r's own state after restoring                      *)
(*   "p" r l       rank r's stream after restoring                         *)
(*   "x" r         restoring a state of another world size was refused     *)
(*   "a" r         it was accepted                                         *)
(*   "X" r         an unexpected error, "h" r: rank r got stuck            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, own, ref, dst, bad
vars == <<tid, i, own, ref, dst, bad>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ own = [r \in 1..T.W |-> -1] /\ ref = [r \in 1..T.W |-> <<>>] /\ dst = 0 /\ bad = ""

Step(e) ==
    CASE e.e = "o" -> own' = [own EXCEPT ![e.r] = e.v] /\ bad' = "" /\ UNCHANGED <<ref, dst>>
      [] e.e = "f" -> ref' = [ref EXCEPT ![e.r] = e.l] /\ bad' = "" /\ UNCHANGED <<own, dst>>
      [] e.e = "D" -> dst' = e.r /\ bad' = "" /\ UNCHANGED <<own, ref>>
      [] e.e = "s" -> /\ UNCHANGED <<own, ref, dst>>
                      /\ bad' = IF dst # 0 /\ dst # e.r THEN (IF e.l # <<>> THEN "state-on-another-rank" ELSE "")
                                ELSE IF Len(e.l) # T.W THEN "wrong-number-of-states"
                                ELSE IF e.l # own THEN "wrong-state-of-a-rank" ELSE ""
      [] e.e = "c" -> bad' = (IF e.v # own[e.r] THEN "not-its-own-state-restored" ELSE "") /\ UNCHANGED <<own, ref, dst>>
      [] e.e = "p" -> bad' = (IF e.l # ref[e.r] THEN "not-its-own-stream" ELSE "") /\ UNCHANGED <<own, ref, dst>>
      [] e.e = "x" -> bad' = "" /\ UNCHANGED <<own, ref, dst>>
      [] e.e = "a" -> bad' = "other-world-size-accepted" /\ UNCHANGED <<own, ref, dst>>
      [] e.e = "X" -> bad' = "failed" /\ UNCHANGED <<own, ref, dst>>
      [] e.e = "h" -> bad' = "stuck" /\ UNCHANGED <<own, ref, dst>>

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1 /\ UNCHANGED tid
    /\ Step(T.evs[i + 1])
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
