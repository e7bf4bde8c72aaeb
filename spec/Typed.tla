-------------------------------- MODULE Typed -------------------------------
(***************************************************************************)
(* Conversion as a work list: each step takes one obligation (a piece of   *)
(* data against a type) and replaces it by those of its parts; a union is  *)
(* a choice between its members.  For all types and data of a small domain *)
(* a run which discharges everything exists exactly when Conv accepts, and *)
(* Conv obeys its laws.  The cases are written for replay.                 *)
(***************************************************************************)
EXTENDS TypedOps, SequencesExt, Json, IOUtils

CONSTANTS Emit

B(k) == [k |-> k]
D(k, v) == [k |-> k, v |-> v]
Base == {B("int"), B("str"), B("float"), B("none"), B("any"), [k |-> "lit", l |-> <<D("str", "a"), D("int", "3")>>]}
F(n, t, d) == [n |-> n, t |-> t, d |-> d, init |-> TRUE]
Rec(n, f) == [k |-> "rec", n |-> n, f |-> f, neg |-> <<>>]
T1 == Base
      \cup {[k |-> "union", l |-> <<a, b>>] : a \in {B("int"), B("str"), B("float")}, b \in {B("str"), B("none"), B("int")}}
      \cup {[k |-> k, t |-> t] : k \in {"list", "tupv", "dict"}, t \in {B("int"), B("any")}}
      \cup {[k |-> "set", t |-> B("str")], B("dict0"), B("list0"), B("path")}
      \cup {[k |-> "tup", l |-> <<a, b>>] : a \in {B("int")}, b \in {B("str"), B("int")}}
      \cup {Rec("A", <<F("x", B("int"), <<>>), F("y", t, <<D("str", "d")>>)>>) : t \in {B("str"), B("any")}}
T2 == T1 \cup {[k |-> k, t |-> t] : k \in {"list", "dict"}, t \in T1}
         \cup {[k |-> "union", l |-> <<a, b>>] : a \in T1 \ Base, b \in {B("int"), [k |-> "dict", t |-> B("str")], Rec("B", <<F("x", B("int"), <<>>)>>)}}
         \cup {Rec("C", <<F("r", t, <<>>)>>) : t \in T1}
D0 == {D("int", "3"), D("str", "a"), D("float", "2.5"), D("none", "None"), D("bool", "True")}
E1(n, v) == [n |-> n, v |-> v]
D1 == D0 \cup {[k |-> "list", l |-> l] : l \in {<<>>} \cup {<<a>> : a \in D0} \cup {<<D("int", "3"), b>> : b \in D0} \cup {<<D("str", "a"), D("str", "a")>>, <<D("str", "a"), D("str", "b")>>}}
         \cup {[k |-> "dict", e |-> e] : e \in {<<>>} \cup {<<E1("x", a)>> : a \in D0} \cup {<<E1("x", D("int", "3")), E1("y", a)>> : a \in D0} \cup {<<E1("y", D("str", "a"))>>, <<E1("x", D("int", "3")), E1("z", D("int", "3"))>>}}
D2 == D1 \cup {[k |-> "list", l |-> <<a>>] : a \in D1} \cup {[k |-> "dict", e |-> <<E1("r", a)>>] : a \in D1}
TS == SetToSeq(T2)
DS == SetToSeq(D2)

VARIABLES t, d, strict, todo, st
vars == <<t, d, strict, todo, st>>

Init == /\ t \in 1..Len(TS) /\ d = 1 /\ strict = FALSE
        /\ todo = <<>> /\ st = "pick"

O(a, b) == [t |-> a, d |-> b]
\* The ways to replace an obligation
Parts(o) ==
    LET x == o.t y == o.d
    IN CASE x.k \in {"any"} -> {<<>>}
         [] x.k \in Scalars -> IF Num(x.k, y.k) THEN {<<>>} ELSE {}
         [] x.k = "lit" -> IF \E z \in Range(x.l) : z = y THEN {<<>>} ELSE {}
         [] x.k = "union" -> {<<O(m, y)>> : m \in Range(x.l)}
         [] x.k \in {"list", "tupv"} -> IF y.k = "list" THEN {[j \in 1..Len(y.l) |-> O(x.t, y.l[j])]} ELSE {}
         [] x.k = "set" -> IF y.k = "list" THEN IF \A i, j \in 1..Len(y.l) : y.l[i] = y.l[j] => i = j THEN {[j \in 1..Len(y.l) |-> O(x.t, y.l[j])]} ELSE {} ELSE {}
         [] x.k = "tup" -> IF y.k = "list" THEN IF Len(y.l) = Len(x.l) THEN {[j \in 1..Len(y.l) |-> O(x.l[j], y.l[j])]} ELSE {} ELSE {}
         [] x.k = "dict" -> IF y.k = "dict" THEN {[j \in 1..Len(y.e) |-> O(x.t, y.e[j].v)]} ELSE {}
         [] x.k = "dict0" -> IF y.k = "dict" THEN {<<>>} ELSE {}
         [] x.k = "list0" -> IF y.k = "list" THEN {<<>>} ELSE {}
         [] x.k = "path" -> IF y.k = "str" THEN {<<>>} ELSE {}
         [] x.k = "rec" -> IF y.k # "dict" THEN {}
                           ELSE LET names == {x.f[j].n : j \in 1..Len(x.f)}
                                    given == SelectSeq(x.f, LAMBDA f : f.n \in Names(y.e))
                                IN IF (\E j \in 1..Len(x.f) : x.f[j].d = <<>> /\ x.f[j].n \notin Names(y.e)) \/ (strict /\ Names(y.e) \ names # {}) THEN {}
                                   ELSE {[j \in 1..Len(given) |-> O(given[j].t, Get(y.e, given[j].n))]}

Pick == /\ st = "pick" /\ st' = "run"
        /\ d' \in 1..Len(DS) /\ strict' \in BOOLEAN
        /\ todo' = <<O(TS[t], DS[d'])>> /\ UNCHANGED t
Step == /\ st = "run"
        /\ UNCHANGED <<t, d, strict>>
        /\ IF todo = <<>> THEN st' = "accepted" /\ UNCHANGED todo
           ELSE LET ps == Parts(Head(todo))
                IN IF ps = {} THEN st' = "refused" /\ UNCHANGED todo
                   ELSE \E p \in ps : todo' = p \o Tail(todo) /\ UNCHANGED st
Next == Pick \/ Step
Spec == Init /\ [][Next]_vars

R0 == Conv(TS[t], DS[d], strict, FALSE, <<>>)
HasUnion(x) == x.k = "union" \/ (x.k \in {"list", "dict"} /\ x.t.k = "union") \/ (x.k = "rec" /\ \E j \in 1..Len(x.f) : x.f[j].t.k = "union")
\* The runs agree with Conv
Sound == st = "accepted" => R0.ok
Complete == st = "refused" /\ ~HasUnion(TS[t]) => ~R0.ok
\* A refusal names a place, and acceptance in strict mode is acceptance with the same value otherwise
Laws == st = "run" /\ Len(todo) = 1 /\ todo[1].d = DS[d] /\ todo[1].t = TS[t] =>
        /\ ~R0.ok => R0.p # {}
        /\ (strict /\ R0.ok /\ ~HasUnion(TS[t])) => SameV(Conv(TS[t], DS[d], FALSE, FALSE, <<>>).v, R0.v)
        /\ (R0.ok /\ ~HasUnion(TS[t]) /\ TS[t].k \notin {"path", "set"})
             => LET again == Conv(TS[t], Write(R0.v), TRUE, FALSE, <<>>)
                IN (TS[t].k \in {"list", "dict"} /\ TS[t].t.k \in {"path", "set"}) \/ (TS[t].k = "rec" /\ \E j \in 1..Len(TS[t].f) : TS[t].f[j].t.k \in {"path", "set"}) \/ (again.ok /\ SameV(again.v, R0.v))

ASSUME Emit => ndJsonSerialize(IOEnv.OUT, TS) /\ ndJsonSerialize(IOEnv.OUT2, DS)
=============================================================================
