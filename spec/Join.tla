-------------------------------- MODULE Join --------------------------------
(***************************************************************************)
(* Readers of the columns of one slice move in lockstep: the first one     *)
(* gives the key, the others have to be at the same key.  A column at      *)
(* another key stays where it is and the error is handed to the handler,   *)
(* which ends the iteration or goes on; a column which ends early or is    *)
(* not finished in the end is always fatal.  The positions of all readers  *)
(* can be saved and restored after every sample.                           *)
(* Invariants: no sample combines different keys; equal columns are        *)
(* delivered completely and without an error; the common beginning of      *)
(* others is delivered and the difference is reported.                     *)
(***************************************************************************)
EXTENDS JoinOps, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS Keys, MaxRows, Columns, Emit

VARIABLES cols, raise, pos, out, errs, ended, slot
vars == <<cols, raise, pos, out, errs, ended, slot>>

Distinct(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
Orders == {s \in BoundedSeq(Keys, MaxRows) : s # <<>> /\ Distinct(s)}
BoundedCols == {[j \in 1..Len(s) |-> [k |-> s[j], ex |-> s[j] \in X, ok |-> TRUE]] : s \in Orders, X \in SUBSET Keys}
\* The first column fixes the names of the keys
Firsts == {c \in BoundedCols : \A j \in 1..Len(c) : c[j].k = j}
Worlds == {w \in [1..Columns -> BoundedCols] : w[1] \in Firsts /\ \A c \in 1..Columns : Len(w[c]) = Len(w[1])}

ASSUME Emit => ndJsonSerialize(IOEnv.OUT, SetToSeq({[cols |-> w] : w \in Worlds}))

Init == /\ cols = <<>> /\ raise = FALSE /\ pos = <<>> /\ out = <<>> /\ errs = 0 /\ ended = "pick" /\ slot = <<>>

Pick == /\ ended = "pick" /\ ended' = ""
        /\ cols' \in Worlds /\ raise' \in BOOLEAN
        /\ pos' = [c \in 1..Columns |-> 0]
        /\ UNCHANGED <<out, errs, slot>>

At(c) == Live(cols[c])[pos[c] + 1].k
Done(c) == pos[c] = Len(Live(cols[c]))

Read ==
    /\ ended = ""
    /\ UNCHANGED <<cols, raise, slot>>
    /\ IF Done(1) THEN /\ ended' = IF \E c \in 2..Columns : ~Done(c) THEN "fatal" ELSE "end"
                       /\ errs' = IF \E c \in 2..Columns : ~Done(c) THEN errs + 1 ELSE errs
                       /\ UNCHANGED <<pos, out>>
       ELSE LET k == At(1)
                First(S) == Min(S)
                short == {c \in 2..Columns : Done(c)}
                wrong == {c \in 2..Columns : ~Done(c) /\ At(c) # k}
                fatal == short # {} /\ (~raise \/ wrong = {} \/ First(short) < First(wrong))
            IN IF fatal THEN /\ ended' = "fatal" /\ errs' = errs + 1 /\ UNCHANGED <<pos, out>>
               ELSE IF wrong # {} /\ raise THEN /\ ended' = "raised" /\ errs' = errs + 1 /\ UNCHANGED <<pos, out>>
               ELSE /\ pos' = [c \in 1..Columns |-> IF c = 1 \/ (~Done(c) /\ At(c) = k) THEN pos[c] + 1 ELSE pos[c]]
                    /\ errs' = IF wrong = {} THEN errs ELSE errs + 1
                    /\ out' = IF wrong = {} THEN Append(out, [c \in 1..Columns |-> At(c)]) ELSE out
                    /\ UNCHANGED ended

Save == /\ ended = "" /\ slot = <<>> /\ out # <<>> /\ slot' = <<pos, out, errs>> /\ UNCHANGED <<cols, raise, pos, out, errs, ended>>
Restore == /\ ended # "pick" /\ slot # <<>>
           /\ pos' = slot[1] /\ out' = slot[2] /\ errs' = slot[3] /\ ended' = "" /\ slot' = <<>>
           /\ UNCHANGED <<cols, raise>>

Next == Pick \/ Read \/ Save \/ Restore
Spec == Init /\ [][Next]_vars

Started == ended # "pick"
SameKeys == \A j \in 1..Len(out) : \A c \in 1..Columns : out[j][c] = out[j][1]
Once == \A a, b \in 1..Len(out) : a # b => out[a] # out[b]
Complete == Started /\ Matching(cols) => /\ errs = 0
                                         /\ ended \in {"", "end"}
                                         /\ (ended = "end" => Len(out) = Len(Live(cols[1])))
Beginning == Started /\ ended # "" => /\ Len(out) >= Common(cols)
                                      /\ \A j \in 1..Common(cols) : out[j][1] = KeysOf(cols[1])[j]
Reported == Started /\ ended # "" /\ ~Matching(cols) => errs > 0
=============================================================================
