------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* G global workers, each with its own fixed stream of samples, spread     *)
(* over ranks: G = R * N, rank r (from 0) has the workers r*N .. r*N+N-1   *)
(* and delivers from them in turn.  The ranks progress independently.      *)
(* A training step with A samples per worker takes A*N samples of every    *)
(* rank.  Property: the multiset of samples of every step over all ranks   *)
(* is the same for every factorisation: the next A samples of every        *)
(* worker.                                                                 *)
(*                                                                         *)
(* Assign = "block" is the layout of the library; "stride" (rank r has the *)
(* workers r, r+R, ...) also keeps the steps, "local" (the streams depend  *)
(* on the local worker number) does not.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS G, A, Steps, Assign

Layouts == {r \in 1..G : G % r = 0}

VARIABLES R, cnt, out
vars == <<R, cnt, out>>

N == G \div R

Worker(r, x) == CASE Assign = "block" -> r * N + x
                  [] Assign = "stride" -> x * R + r
                  [] Assign = "local" -> x

Init == /\ R \in Layouts
        /\ cnt = [r \in 0..(R - 1) |-> 0]
        /\ out = [s \in 1..Steps |-> {}]

\* The k-th sample (from 0) of a rank comes from the worker in turn
Deliver(r) ==
    /\ cnt[r] < A * N * Steps
    /\ LET k == cnt[r]
           w == Worker(r, k % N)
           s == (k \div (A * N)) + 1
       IN out' = [out EXCEPT ![s] = @ \cup {<<w, k \div N, r>>}]
    /\ cnt' = [cnt EXCEPT ![r] = @ + 1]
    /\ UNCHANGED R

Next == \E r \in 0..(R - 1) : Deliver(r)
Spec == Init /\ [][Next]_vars

Want(s) == {<<w, k>> : w \in 0..(G - 1), k \in ((s - 1) * A)..(s * A - 1)}
Got(s) == {<<x[1], x[2]>> : x \in out[s]}

StepDone(s) == \A r \in 0..(R - 1) : cnt[r] >= A * N * s

\* Every finished step has exactly the wanted samples, each once
SameSteps == \A s \in 1..Steps : StepDone(s) => Got(s) = Want(s) /\ Cardinality(out[s]) = G * A
NoForeign == \A s \in 1..Steps : Got(s) \subseteq Want(s)
=============================================================================
