------------------------------ MODULE JoinTrace -----------------------------
(***************************************************************************)
(* Judges what a join delivers.                                            *)
(*                                                                         *)
(* A trace: names[c][s]: name of shard s of column c; cols[s][c]: rows     *)
(* [k, ex, ok, d (digest of the contents)] of the column in the shard;     *)
(* refuse: the factory has to refuse the datasets; evs:                    *)
(*   "d" w key cols rk   worker w delivered a sample: its key, key and     *)
(*        digest per column as the joiner got them at their positions,     *)
(*        and the restore key as pairs of shard name and row               *)
(*   "k" cols key rk     a sample restored by its key                      *)
(*   "r" key             an error was given to the handler                 *)
(*   "x" w               an error ended the iteration of the worker        *)
(*   "c"                 the datasets were refused                         *)
(*   "e"                 an epoch has ended (all workers)                  *)
(*   "s" / "R" w         state saved to / restored from a slot             *)
(* order: samples of a shard come in order; loop: endless, every worker    *)
(* delivers its samples again only when all of total[w] are delivered      *)
(* (0: unknown); sliced: shards may be read in slices; one: by one worker  *)
(***************************************************************************)
EXTENDS JoinOps, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, seen, errs, dead, slots, bad
vars == <<tid, i, seen, errs, dead, slots, bad>>
T == Traces[tid]
C == Len(T.names)
S == Len(T.cols)
Range(s) == {s[j] : j \in 1..Len(s)}

Init == tid \in 1..Len(Traces) /\ i = 0 /\ seen = {} /\ errs = {} /\ dead = FALSE /\ slots = <<>> /\ bad = ""

ShardOf(n) == {s \in 1..S : T.names[1][s] = n}
Judge(e) ==
    IF Len(e.rk) # C \/ Len(e.cols) # C THEN "wrong-number-of-columns"
    ELSE IF ShardOf(e.rk[1].n) = {} THEN "unknown-shard"
    ELSE LET s == CHOOSE s \in ShardOf(e.rk[1].n) : TRUE
             Row(c) == T.cols[s][c][e.rk[c].i]
         IN IF \E c \in 1..C : T.names[c][s] # e.rk[c].n \/ e.rk[c].i \notin 1..Len(T.cols[s][c]) THEN "wrong-restore-key"
            ELSE IF \E c \in 1..C : Row(c).k # Row(1).k \/ e.cols[c].k # Row(1).k THEN "different-keys-joined"
            ELSE IF e.key # T.names[1][s] \o "/" \o Row(1).k THEN "wrong-key"
            ELSE IF \E c \in 1..C : e.cols[c].d # Row(c).d THEN "wrong-column"
            ELSE IF \E c \in 1..C : Row(c).ex THEN "excluded-sample"
            ELSE IF \E c \in 1..C : ~Row(c).ok THEN "unreadable-column-joined"
            ELSE ""
Place(e) == <<CHOOSE s \in ShardOf(e.rk[1].n) : TRUE, e.rk[1].i>>
Mine(w) == {x \in seen : x[1] = w}

\* Live rows which match and can be read
Good(s) == {r \in 1..Len(T.cols[s][1]) :
              /\ ~T.cols[s][1][r].ex
              /\ \A c \in 1..C : \E q \in 1..Len(T.cols[s][c]) : T.cols[s][c][q].k = T.cols[s][1][r].k /\ T.cols[s][c][q].ok /\ ~T.cols[s][c][q].ex}
Rank(s, r) == Cardinality({q \in 1..r : ~T.cols[s][1][q].ex})
\* In slices the rows have to match at their places
Aligned(s, n) == \A r \in 1..n : \A c \in 1..C : T.cols[s][c][r].k = T.cols[s][1][r].k /\ T.cols[s][c][r].ex = T.cols[s][1][r].ex
Match(s) == IF T.sliced THEN Aligned(s, Len(T.cols[s][1])) ELSE Matching(T.cols[s])
\* Rows which have to come whatever else happens
Due(s) == IF Match(s) THEN Good(s)
          ELSE IF T.sliced THEN {r \in Good(s) : Aligned(s, r)}
          ELSE {r \in Good(s) : Rank(s, r) <= Common(T.cols[s])}
Unreadable == {<<s, r>> \in (1..S) \X (1..T.max) : /\ r <= Len(T.cols[s][1]) /\ Match(s) /\ ~T.cols[s][1][r].ex /\ r \notin Good(s)}
Faulty == Unreadable # {} \/ \E s \in 1..S : ~Match(s)
MustReport == Unreadable # {} \/ \E s \in 1..S : ~Matching(T.cols[s])
KeyAt(p) == T.names[1][p[1]] \o "/" \o T.cols[p[1]][1][p[2]].k
SeenRows(s) == {x[3] : x \in {y \in seen : y[2] = s}}

Step(e) ==
    CASE e.e = "d" ->
           LET j == Judge(e)
               p == IF j = "" THEN Place(e) ELSE <<0, 0>>
               full == T.loop /\ T.total[e.w] > 0 /\ Cardinality(Mine(e.w)) = T.total[e.w]
               before == IF full THEN seen \ Mine(e.w) ELSE seen
               twice == IF T.loop THEN T.total[e.w] > 0 /\ <<e.w, p[1], p[2]>> \in before
                        ELSE \E x \in before : x[2] = p[1] /\ x[3] = p[2]
           IN /\ bad' = IF T.refuse THEN "not-refused"
                        ELSE IF j # "" THEN j
                        ELSE IF twice THEN "sample-repeated"
                        ELSE IF T.order /\ (\E x \in before : x[1] = e.w /\ x[2] = p[1] /\ x[3] > p[2]) THEN "wrong-order"
                        ELSE ""
              /\ seen' = before \cup {<<e.w, p[1], p[2]>>}
              /\ UNCHANGED <<errs, dead, slots>>
      [] e.e = "k" -> bad' = Judge(e) /\ UNCHANGED <<seen, errs, dead, slots>>
      [] e.e = "r" -> bad' = (IF ~Faulty THEN "error-without-reason" ELSE "") /\ errs' = errs \cup {e.key} /\ UNCHANGED <<seen, dead, slots>>
      [] e.e = "x" -> bad' = (IF ~Faulty THEN "error-without-reason" ELSE "") /\ dead' = TRUE /\ UNCHANGED <<seen, errs, slots>>
      [] e.e = "c" -> bad' = (IF ~T.refuse THEN "refused-without-reason" ELSE "") /\ UNCHANGED <<seen, errs, dead, slots>>
      [] e.e = "s" -> slots' = Append(slots, seen) /\ bad' = "" /\ UNCHANGED <<seen, errs, dead>>
      [] e.e = "R" -> seen' = slots[e.w] /\ bad' = "" /\ UNCHANGED <<errs, dead, slots>>
      [] e.e = "e" ->
           /\ seen' = {} /\ errs' = {} /\ dead' = FALSE /\ UNCHANGED slots
           /\ bad' = IF T.refuse THEN "not-refused"
                     ELSE IF MustReport /\ errs = {} /\ ~dead THEN "nothing-reported"
                     ELSE IF ~dead /\ (\E s \in 1..S : ~(Due(s) \subseteq SeenRows(s))) THEN "sample-lost"
                     ELSE IF ~dead /\ (\E p \in Unreadable : \A k \in errs : k # KeyAt(p)) THEN "unreadable-column-not-reported"
                     ELSE IF S = 1 /\ T.one /\ Unreadable = {} /\ ~(Due(1) \subseteq SeenRows(1)) THEN "sample-lost-before-the-error"
                     ELSE ""

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1 /\ UNCHANGED tid
    /\ Step(T.evs[i + 1])
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
