------------------------------ MODULE Prepare ------------------------------
(***************************************************************************)
(* Preparing a dataset: a pool of workers scans the shards (each writes    *)
(* a temporary index which it renames when complete), a collector takes    *)
(* the results in the given order and writes the info and the split parts. *)
(* A worker or the whole run may die at any step.                          *)
(* A shard is [good, count]; count is what its scan counts step by step.   *)
(***************************************************************************)
EXTENDS PrepareOps

\* ---- the run
CONSTANTS MaxShards, MaxCount, NWorkers
VARIABLES shards, job, at, files, done, next, info, parts, dead
vars == <<shards, job, at, files, done, next, info, parts, dead>>
Workers == 1..NWorkers
Ratio == <<2, 1, 1>>
Shard == [good : BOOLEAN, count : 0..MaxCount]

Init == /\ shards \in UNION {[1..k -> Shard] : k \in 1..MaxShards}
        /\ job = [w \in Workers |-> 0] /\ at = [w \in Workers |-> 0]
        /\ files = [k \in 1..Len(shards) |-> [idx |-> -1, tmp |-> -1]]
        /\ done = [k \in 1..Len(shards) |-> -1]
        /\ next = 1 /\ info = <<>> /\ parts = <<>> /\ dead = FALSE

Started == {k \in 1..Len(shards) : done[k] # -1} \cup {job[w] : w \in Workers}
Take(w) == /\ job[w] = 0
           /\ LET free == (1..Len(shards)) \ Started
              IN /\ free # {}
                 /\ LET k == CHOOSE x \in free : \A y \in free : x <= y
                    IN job' = [job EXCEPT ![w] = k] /\ files' = [files EXCEPT ![k].tmp = 0]
           /\ at' = [at EXCEPT ![w] = 0]
           /\ UNCHANGED <<shards, done, next, info, parts, dead>>
\* one sample is appended; a broken shard fails somewhere
Scan(w) == /\ job[w] # 0 /\ at[w] < shards[job[w]].count
           /\ at' = [at EXCEPT ![w] = @ + 1] /\ files' = [files EXCEPT ![job[w]].tmp = @ + 1]
           /\ UNCHANGED <<shards, job, done, next, info, parts, dead>>
Complete(w) == /\ job[w] # 0 /\ at[w] = shards[job[w]].count /\ shards[job[w]].good
               /\ files' = [files EXCEPT ![job[w]] = [idx |-> @.tmp, tmp |-> -1]]
               /\ done' = [done EXCEPT ![job[w]] = at[w]]
               /\ job' = [job EXCEPT ![w] = 0]
               /\ UNCHANGED <<shards, at, next, info, parts, dead>>
Fail(w) == /\ job[w] # 0 /\ ~shards[job[w]].good
           /\ files' = [files EXCEPT ![job[w]].tmp = -1]
           /\ done' = [done EXCEPT ![job[w]] = 0]
           /\ job' = [job EXCEPT ![w] = 0]
           /\ UNCHANGED <<shards, at, next, info, parts, dead>>
Collect == /\ next <= Len(shards) /\ done[next] # -1
           /\ info' = IF done[next] = 0 THEN info ELSE Append(info, <<next, done[next]>>)
           /\ next' = next + 1
           /\ UNCHANGED <<shards, job, at, files, done, parts, dead>>
\* the ends of the parts rounded down
Write == /\ next = Len(shards) + 1 /\ parts = <<>>
         /\ LET n == Len(info)  e == [p \in 0..3 |-> (n * Sum(SubSeq(Ratio, 1, p))) \div Sum(Ratio)]
            IN parts' = [p \in 1..3 |-> [j \in 1..(e[p] - e[p - 1]) |-> info[e[p - 1] + j][1]]]
         /\ UNCHANGED <<shards, job, at, files, done, next, info, dead>>
Die == ~dead /\ parts = <<>> /\ dead' = TRUE /\ UNCHANGED <<shards, job, at, files, done, next, info, parts>>
Next == Die \/ (~dead /\ (Collect \/ Write \/ \E w \in Workers : Take(w) \/ Scan(w) \/ Complete(w) \/ Fail(w)))
Spec == Init /\ [][Next]_vars

\* an index is complete whenever it is visible, also after dying at any point
IndexComplete == \A k \in 1..Len(shards) : files[k].idx # -1 => shards[k].good /\ files[k].idx = shards[k].count
Finished == parts # <<>>
Recorded == Finished =>
    /\ info = [j \in 1..Len(Kept(shards)) |-> <<Kept(shards)[j], shards[Kept(shards)[j]].count>>]
    /\ RatioOk(parts, Ratio, Kept(shards))
    /\ \A k \in 1..Len(shards) : files[k].tmp = -1 /\ (shards[k].good <=> files[k].idx # -1)
=============================================================================
