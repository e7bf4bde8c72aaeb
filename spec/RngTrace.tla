------------------------------ MODULE RngTrace ------------------------------
(***************************************************************************)
(* Judges the random numbers seen by seeded functions and around them.     *)
(*                                                                         *)
(* A trace: ref[p]: the numbers of program p drawn without any function,   *)
(* evs:                                                                    *)
(*   "p" o          program o starts                                       *)
(*   "u" v          outside of all functions, v was drawn                  *)
(*   "d" o k n v    call o of key k draws v as its number n, k = "": the   *)
(*                  call has seeded the generators itself                  *)
(* The numbers of a key are the same in all programs and contexts (RngFra- *)
(* mes: OwnNumbers), those of different keys differ.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, prog, pos, table, firsts, bad
vars == <<tid, i, prog, pos, table, firsts, bad>>
T == Traces[tid]

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0 /\ prog = 0 /\ pos = 0 /\ bad = ""
        /\ table = <<>>
        /\ firsts = {}

Outer(e) ==
    /\ pos' = pos + 1
    /\ bad' = IF pos + 1 > Len(T.ref[prog]) THEN "machinery-no-reference"
              ELSE IF T.ref[prog][pos + 1] # e.v THEN "trace-left-in-the-generators"
              ELSE ""
    /\ UNCHANGED <<prog, table, firsts>>

Inner(e) ==
    /\ UNCHANGED <<prog, pos>>
    /\ IF e.k = "" THEN bad' = "" /\ UNCHANGED <<table, firsts>>
       ELSE IF e.k \in DOMAIN table /\ e.n <= Len(table[e.k])
       THEN /\ bad' = IF table[e.k][e.n] = e.v THEN "" ELSE "numbers-depend-on-context"
            /\ UNCHANGED <<table, firsts>>
       ELSE IF e.k \in DOMAIN table
       THEN /\ table' = [table EXCEPT ![e.k] = Append(@, e.v)]
            /\ bad' = IF e.n = Len(table[e.k]) + 1 THEN "" ELSE "machinery-number-skipped"
            /\ UNCHANGED firsts
       ELSE /\ table' = (e.k :> <<e.v>>) @@ table
            /\ firsts' = firsts \cup {e.v}
            /\ bad' = IF e.v \in firsts THEN "same-numbers-for-different-samples" ELSE ""

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1]
       IN CASE e.e = "p" -> prog' = e.o /\ pos' = 0 /\ bad' = "" /\ UNCHANGED <<table, firsts>>
            [] e.e = "u" -> Outer(e)
            [] e.e = "d" -> Inner(e)
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
