----------------------------- MODULE IndexTrace -----------------------------
(***************************************************************************)
(* Judges the sample and batch indices which the functions of a pipeline   *)
(* see within one worker.                                                  *)
(*                                                                         *)
(* A trace: W workers of the rank, worker w, root: the last node, evs:     *)
(*   "c" n f v   function f of node n is called and sees v = <<sample      *)
(*               index, batch index>>                                      *)
(*   "y" n f v   the call goes on after it has yielded                     *)
(*   "o" n       node n has produced a sample                              *)
(*   "r" n       node n is reset to its start                              *)
(* The k-th call of a function of a wrapper by worker w has the index      *)
(* k * W + w, the batch index is that of the sample which the worker is    *)
(* producing.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, cnt, run, out, bad
vars == <<tid, i, cnt, run, out, bad>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0 /\ out = 0 /\ bad = ""
        /\ cnt = [n \in 1..T.root |-> <<0, 0>>]
        /\ run = [n \in 1..T.root |-> -1]

Batch == out * T.W + T.w

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1]
       IN CASE e.e = "c" ->
                 LET s == cnt[e.n][e.f] * T.W + T.w
                 IN /\ cnt' = [cnt EXCEPT ![e.n][e.f] = @ + 1]
                    /\ run' = [run EXCEPT ![e.n] = s]
                    /\ bad' = IF e.v[1] # s THEN "sample-index"
                              ELSE IF e.v[2] # Batch THEN "batch-index" ELSE ""
                    /\ UNCHANGED out
            [] e.e = "y" ->
                 /\ bad' = IF e.v[1] # run[e.n] THEN "sample-index-after-yield"
                           ELSE IF e.v[2] # Batch THEN "batch-index-after-yield" ELSE ""
                 /\ UNCHANGED <<cnt, run, out>>
            [] e.e = "o" ->
                 /\ out' = IF e.n = T.root THEN out + 1 ELSE out
                 /\ bad' = "" /\ UNCHANGED <<cnt, run>>
            [] e.e = "r" ->
                 /\ cnt' = [cnt EXCEPT ![e.n] = <<0, 0>>]
                 /\ bad' = "" /\ UNCHANGED <<run, out>>
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
