------------------------- MODULE SampleLoaderTrace -------------------------
(***************************************************************************)
(* Judges what one worker delivers.  items[s] = ids of the samples of      *)
(* slice s (excluded ones left out; ids are unique); P = number of slices  *)
(* which may be open; k = copies per pass (0: in order, -1: infinite);     *)
(* loop.  Events: "d" v (a sample), "e" (end of the epoch), "s"/"R" v      *)
(* (save to / restore from a slot), "f" (end of a long trace: every slice  *)
(* was drawn).                                                             *)
(* Copies of one slice at the same position are exchangeable, so the       *)
(* specification is deterministic.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, pool, at, drawn, slots, bad
vars == <<tid, i, pool, at, drawn, slots, bad>>
T == Traces[tid]
N == Len(T.items)

\* at[s][j]: number of open copies of slice s which delivered j samples
Full == [s \in 1..N |-> IF T.items[s] = <<>> THEN 0 ELSE IF T.k <= 0 THEN 1 ELSE T.k]
Closed == [s \in 1..N |-> [j \in 1..Len(T.items[s]) |-> 0]]
Sum(f) == LET S[k \in 0..Len(f)] == IF k = 0 THEN 0 ELSE S[k - 1] + f[k] IN S[Len(f)]
OpenCount(a) == Sum([s \in 1..N |-> Sum(a[s])])

Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = "" /\ slots = <<>>
        /\ pool = Full /\ at = Closed /\ drawn = {}

Find(v) == {<<s, j>> \in (1..N) \X (1..T.max) : j <= Len(T.items[s]) /\ T.items[s][j] = v}

Deliver(v) ==
    LET f == Find(v)
    IN IF f = {} THEN /\ bad' = "not-a-sample-of-this-worker" /\ UNCHANGED <<pool, at, drawn>>
       ELSE LET p == CHOOSE x \in f : TRUE
                s == p[1]  j == p[2]
                L == Len(T.items[s])
                \* a new pass begins when the last one is complete
                fresh == T.loop /\ T.k # -1 /\ Sum(pool) = 0 /\ OpenCount(at) = 0
                po == IF fresh THEN Full ELSE pool
                at1 == IF j > 1 THEN [at EXCEPT ![s][j - 1] = @ - 1] ELSE at
                at2 == IF j < L THEN [at1 EXCEPT ![s][j] = @ + 1] ELSE at1
            IN /\ pool' = IF j = 1 /\ T.k # -1 THEN [po EXCEPT ![s] = @ - 1] ELSE po
               /\ at' = at2
               /\ drawn' = drawn \cup {s}
               /\ bad' = IF j > 1 /\ at[s][j - 1] = 0 THEN "out-of-order-or-repeated"
                         ELSE IF j = 1 /\ T.k # -1 /\ po[s] = 0 THEN "slice-repeated"
                         ELSE IF j = 1 /\ T.k = 0 /\ (\E t \in 1..(s - 1) : po[t] > 0) THEN "slices-out-of-order"
                         ELSE IF OpenCount(at2) > T.P THEN "too-many-slices-open"
                         ELSE IF T.k = 0 /\ j = 1 /\ OpenCount(at) > 0 THEN "slice-interrupted"
                         ELSE ""

Step ==
    LET e == T.ev[i + 1]
    IN CASE e.e = "d" -> Deliver(e.v) /\ UNCHANGED slots
         [] e.e = "e" -> /\ pool' = Full /\ at' = Closed /\ UNCHANGED <<drawn, slots>>
                         /\ bad' = IF T.loop /\ Sum(Full) > 0 THEN "ended"
                                   ELSE IF Sum(pool) > 0 \/ OpenCount(at) > 0 THEN "samples-lost" ELSE ""
         [] e.e = "s" -> /\ slots' = Append(slots, <<pool, at>>) /\ UNCHANGED <<pool, at, drawn>> /\ bad' = ""
         [] e.e = "R" -> /\ pool' = slots[e.v][1] /\ at' = slots[e.v][2] /\ UNCHANGED <<drawn, slots>> /\ bad' = ""
         [] e.e = "f" -> /\ UNCHANGED <<pool, at, drawn, slots>>
                         /\ bad' = IF \E s \in 1..N : T.items[s] # <<>> /\ s \notin drawn THEN "slice-never-drawn" ELSE ""

Next == /\ bad = "" /\ i < Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tid
        /\ Step
        /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
        /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
