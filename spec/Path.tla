-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* All texts of a few components.  The components are resolved one after   *)
(* the other with a stack, as the code does; this agrees with removing     *)
(* pairs (name, ..) in any order, and the algebra obeys its laws.  The     *)
(* texts are written for replay.                                           *)
(***************************************************************************)
EXTENDS PathOps, SequencesExt, TLC, Json, IOUtils

CONSTANTS Emit, MaxLen, Remotes

A == <<97>>
BC == <<98, 46, 99>>
Word == {A, BC, Up, <<Dot>>, <<>>}
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE Words(n - 1) \cup {Append(w, x) : w \in Words(n - 1), x \in Word}
Flat(w) == JoinText(w)
Raw == {x \in {Flat(w) : w \in Words(MaxLen)} \cup {<<Slash>> \o Flat(w) : w \in Words(MaxLen)} \cup (IF Remotes THEN {RClone \o A \o <<Slash>> \o Flat(w) : w \in Words(MaxLen)} ELSE {}) : x # <<>> /\ ~IsPrefix(<<Slash, Slash>>, x)}
RawSeq == SetToSeq(Raw)

VARIABLES s, todo, stack, st, pairs
vars == <<s, todo, stack, st, pairs>>

P == Parse(RawSeq[s])
Init == s \in 1..Len(RawSeq) /\ todo = <<>> /\ stack = <<>> /\ st = "parse" /\ pairs = <<>>
Start == /\ st = "parse" /\ P # Bad
         /\ todo' = P.parts /\ pairs' = P.parts /\ st' = "run"
         /\ UNCHANGED <<s, stack>>
\* The stack
Push == /\ st = "run" /\ todo # <<>>
        /\ todo' = Tail(todo)
        /\ IF Head(todo) # Up THEN stack' = Append(stack, Head(todo)) /\ UNCHANGED st
           ELSE IF stack = <<>> THEN st' = "above" /\ UNCHANGED stack
           ELSE stack' = Front(stack) /\ UNCHANGED st
        /\ UNCHANGED <<s, pairs>>
\* Any pair
Drop == /\ st = "run"
        /\ \E i \in 1..(Len(pairs) - 1) :
             /\ pairs[i] # Up /\ pairs[i + 1] = Up
             /\ pairs' = SubSeq(pairs, 1, i - 1) \o SubSeq(pairs, i + 2, Len(pairs))
        /\ UNCHANGED <<s, todo, stack, st>>
Next == Start \/ Push \/ Drop
Spec == Init /\ [][Next]_vars

Settled == \A i \in 1..(Len(pairs) - 1) : ~(pairs[i] # Up /\ pairs[i + 1] = Up)
R == Resolve([P EXCEPT !.abs = TRUE])
Agree == /\ (st = "run" /\ todo = <<>>) => (R # Bad /\ stack = R.parts)
         /\ (st = "run" /\ todo = <<>> /\ Settled) => pairs = stack
         /\ st = "above" => R = Bad
Some == {Parse(x) : x \in {<<Slash>> \o A, <<Slash>>, A, BC \o <<Slash>> \o A, Up, Up \o <<Slash>> \o A, RClone \o A \o <<Slash>> \o BC}}
Laws == st = "parse" /\ P # Bad =>
        /\ Parse(Text(P)) = P
        /\ \A q \in Some :
             /\ (Text(P) = Text(q)) = (P = q)
             /\ (P.abs /\ ~q.abs /\ Join(P, q) # Bad /\ R # Bad /\ Up \notin {q.parts[i] : i \in 1..Len(q.parts)}) =>
                   Relative(Join(P, q), IF P.r = <<>> THEN R ELSE P) = q \/ (Up \in {P.parts[i] : i \in 1..Len(P.parts)} /\ q.parts = <<>>)
             /\ (P.abs /\ q.abs /\ Relative(P, q) # Bad /\ R # Bad) => Join(q, Relative(P, q)) = (IF P.r = <<>> THEN R ELSE P)
             /\ \A z \in Some : (P.abs /\ q.abs /\ z.abs /\ Less(P, q) /\ Less(q, z)) => Less(P, z)
             /\ (Less(P, q) /\ ~Less(q, P)) \/ Less(q, P) \/ P.parts = q.parts
        /\ (P.parts # <<>> /\ P.abs /\ Name(P) # Up /\ R # Bad) => Join(Parent(P), [r |-> <<>>, abs |-> FALSE, parts |-> <<Name(P)>>]) = (IF P.r = <<>> THEN R ELSE P)

ASSUME Emit => ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(RawSeq) |-> [s |-> RawSeq[i]]])
=============================================================================
