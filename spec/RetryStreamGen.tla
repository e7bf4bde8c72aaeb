-------------------------- MODULE RetryStreamGen --------------------------
(* All short histories of a stream: operations and low level faults.       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS Size, NOps, NFaults
Op == {[o |-> "r", n |-> n] : n \in {-1, 0, 1, 2, Size + 1}} \cup {[o |-> "s", n |-> n] : n \in {0, 2, Size}}
Fault == {"ok", "short", "eof", "err"}
Hist == {[ops |-> o, faults |-> f] : o \in [1..NOps -> Op], f \in [1..NFaults -> Fault]}

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Hist))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Spec == Init /\ [][Next]_x
=============================================================================
