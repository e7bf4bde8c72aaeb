-------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The access as the walk which the code performs, with its position in    *)
(* the options and in the value, for all values and expressions of a small *)
(* domain: it ends where FieldOps says.  The cases are written for replay. *)
(***************************************************************************)
EXTENDS FieldOps, SequencesExt, TLC, Json, IOUtils

CONSTANTS Emit

S(x) == [k |-> "s", v |-> x]
V0 == {S("s:x"), S("n:None")}
L1 == {[k |-> "l", e |-> <<>>], [k |-> "l", e |-> <<S("s:0"), S("s:1")>>]}
D1 == {[k |-> "d", m |-> <<>>], [k |-> "d", m |-> <<<<"a", S("s:a")>>>>], [k |-> "d", m |-> <<<<"0", S("s:z")>>, <<"a", S("n:None")>>>>]}
V1 == V0 \cup L1 \cup D1
L2 == {[k |-> "l", e |-> <<x>>] : x \in V1}
D2 == {[k |-> "d", m |-> <<<<"a", x>>>>] : x \in V1}
Top == {[k |-> "d", m |-> <<<<"a", x>>>>] : x \in V1 \cup L2 \cup D2}
       \cup {[k |-> "d", m |-> <<<<"a", x>>, <<"b", S("s:b")>>>>] : x \in V1}

C(n) == [n |-> n, i |-> IF n = "0" THEN 0 ELSE IF n = "1" THEN 1 ELSE -1, isi |-> n \in {"0", "1", "-1"}]
Comp == {C(n) : n \in {"a", "0", "1", "-1"}}
First == {C("a"), C("b")}
Opt == {<<x>> : x \in First} \cup {<<x, y>> : x \in {C("a")}, y \in Comp} \cup {<<x, y, z>> : x \in {C("a")}, y \in Comp, z \in Comp}
Exprs == {<<o>> : o \in Opt} \cup {<<o, p>> : o \in Opt, p \in {<<C("b")>>, <<C("a"), C("0")>>, <<C("a")>>}}

VARIABLES v, expr, o, at, rest, res
vars == <<v, expr, o, at, rest, res>>

Init == /\ v \in Top /\ expr \in Exprs /\ o = 1 /\ at = v /\ rest = expr[1] /\ res = [k |-> "run"]
Fail == IF o = Len(expr) THEN res' = Err /\ UNCHANGED <<o, at, rest>>
        ELSE o' = o + 1 /\ at' = v /\ rest' = expr[o + 1] /\ UNCHANGED res
Into(x) == at' = x /\ rest' = Tail(rest) /\ UNCHANGED <<o, res>>
Next == /\ res.k = "run"
        /\ UNCHANGED <<v, expr>>
        /\ IF rest = <<>> THEN res' = at /\ UNCHANGED <<o, at, rest>>
           ELSE LET c == Head(rest)
                IN IF at.k = "d" /\ \E j \in 1..Len(at.m) : at.m[j][1] = c.n
                   THEN \E j \in 1..Len(at.m) : at.m[j][1] = c.n /\ Into(at.m[j][2])
                   ELSE IF at.k = "l" /\ c.isi /\ c.i < Len(at.e) /\ Len(at.e) + c.i >= 0
                   THEN IF Len(at.e) = 0 THEN Fail ELSE Into(at.e[((c.i + Len(at.e)) % Len(at.e)) + 1])
                   ELSE Fail
Spec == Init /\ [][Next]_vars
Right == res.k # "run" => res = Select(v, expr)

ASSUME Emit => ndJsonSerialize(IOEnv.OUT, SetToSeq(Top)) /\ ndJsonSerialize(IOEnv.OUT2, SetToSeq(Exprs))
=============================================================================
