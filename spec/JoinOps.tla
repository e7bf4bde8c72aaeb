------------------------------- MODULE JoinOps ------------------------------
(***************************************************************************)
(* What a join of columns may deliver.  A column is the sequence of its    *)
(* rows in file order: [k |-> key, ex |-> excluded in this column,         *)
(* ok |-> can be decoded, ...].                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Live(col) == SelectSeq(col, LAMBDA r : ~r.ex)
KeysOf(col) == LET l == Live(col) IN [j \in 1..Len(l) |-> l[j].k]

\* All columns have the same keys in the same order
Matching(cols) == \A c \in 1..Len(cols) : KeysOf(cols[c]) = KeysOf(cols[1])

\* Length of the common beginning
Common(cols) ==
    LET L == Len(KeysOf(cols[1]))
        Ok(n) == \A c \in 1..Len(cols) : Len(KeysOf(cols[c])) >= n /\ SubSeq(KeysOf(cols[c]), 1, n) = SubSeq(KeysOf(cols[1]), 1, n)
    IN CHOOSE n \in 0..L : Ok(n) /\ (n = L \/ ~Ok(n + 1))
=============================================================================
