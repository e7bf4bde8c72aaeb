--------------------------- MODULE SampleLoader ---------------------------
(***************************************************************************)
(* One worker's loader over slices of shards.  Slice s has Lens[s]         *)
(* samples.  A pass puts Copies copies of every slice into the pool (0: in *)
(* order, one at a time; -1: slices are drawn with replacement and the     *)
(* pass never ends); up to Iters slices are open, each with a cursor; any  *)
(* open slice may deliver next.  The state can be saved and restored.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxSlices, MaxLen, MaxIters, MaxCopies, Passes, Draws

VARIABLES Lens, Iters, Copies, pool, open, passes, seen, saved
vars == <<Lens, Iters, Copies, pool, open, passes, seen, saved>>

N == Len(Lens)
Seq1 == UNION {[1..k -> 0..MaxLen] : k \in 1..MaxSlices}
\* `open` is a sequence of at most Iters cursors <<slice, pos>>; `seen[s][j]` how often sample j
\* of slice s was delivered in this pass
Zero == [s \in 1..N |-> [j \in 1..Lens[s] |-> 0]]
Full == [s \in 1..N |-> IF Copies = 0 THEN 1 ELSE IF Copies = -1 THEN 0 ELSE Copies]

Init == /\ Lens \in Seq1 /\ Iters \in 1..MaxIters /\ Copies \in -1..MaxCopies
        /\ (Copies = 0 => Iters = 1)
        /\ pool = Full /\ open = <<>> /\ passes = 0 /\ seen = Zero /\ saved = <<>>

Remove(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Sum(f) == LET S[k \in 0..N] == IF k = 0 THEN 0 ELSE S[k - 1] + f[k] IN S[N]

Open == /\ Len(open) < Iters
        /\ \E s \in 1..N :
             /\ IF Copies = -1 THEN passes < Draws ELSE pool[s] > 0
             /\ (Copies = 0 => \A t \in 1..(s - 1) : pool[t] = 0)
             /\ pool' = IF Copies = -1 THEN pool ELSE [pool EXCEPT ![s] = @ - 1]
             /\ passes' = IF Copies = -1 THEN passes + 1 ELSE passes
             /\ open' = Append(open, <<s, 0>>)
        /\ UNCHANGED <<Lens, Iters, Copies, seen, saved>>

\* only once as many slices as possible are open
Ready == Len(open) = Iters \/ (Copies # -1 /\ Sum(pool) = 0) \/ (Copies = -1 /\ passes = Draws)
Deliver == /\ Ready
           /\ \E k \in 1..Len(open) :
                LET s == open[k][1]  j == open[k][2] + 1
                IN /\ j <= Lens[s]
                   /\ open' = [open EXCEPT ![k] = <<s, j>>]
                   /\ seen' = [seen EXCEPT ![s][j] = @ + 1]
           /\ UNCHANGED <<Lens, Iters, Copies, pool, passes, saved>>
Close == /\ \E k \in 1..Len(open) : open[k][2] = Lens[open[k][1]] /\ open' = Remove(open, k)
         /\ UNCHANGED <<Lens, Iters, Copies, pool, passes, seen, saved>>
NewPass == /\ Copies # -1 /\ Sum(pool) = 0 /\ open = <<>> /\ passes < Passes
           /\ pool' = Full /\ seen' = Zero /\ passes' = passes + 1
           /\ UNCHANGED <<Lens, Iters, Copies, open, saved>>
Save == /\ saved = <<>> /\ saved' = <<pool, open, passes, seen>>
        /\ UNCHANGED <<Lens, Iters, Copies, pool, open, passes, seen>>
\* in a new process
Restore == /\ saved # <<>>
           /\ pool' = saved[1] /\ open' = saved[2] /\ passes' = saved[3] /\ seen' = saved[4]
           /\ UNCHANGED <<Lens, Iters, Copies, saved>>
Next == Open \/ Deliver \/ Close \/ NewPass \/ Save \/ Restore
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
AtMostOpen == Len(open) <= Iters
\* Within a pass, nothing more often than the copies; at its end, exactly
Exact == Copies # -1 =>
    LET c == IF Copies = 0 THEN 1 ELSE Copies
    IN /\ \A s \in 1..N : \A j \in 1..Lens[s] : seen[s][j] <= c
       /\ (Sum(pool) = 0 /\ open = <<>>) => \A s \in 1..N : \A j \in 1..Lens[s] : seen[s][j] = c
\* Samples of a slice in order
InOrder == \A s \in 1..N : \A j \in 2..Lens[s] : seen[s][j] <= seen[s][j - 1]
=============================================================================
