---------------------------- MODULE CollateOps ------------------------------
(***************************************************************************)
(* Collation of a batch.  Values: "t" [d, s, v] (tensor: dtype, shape, the *)
(* numbers in order, twice), "x" [v] (anything else), "l" [l] (list),      *)
(* "d" [e] (dict), "c" [n, e] (class n with fields); e: sequence of [n, v].*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Bad == [k |-> "bad"]
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* Number j (from 0) of a tensor of shape s is at these places, and back
RECURSIVE Places(_, _)
Places(s, j) == IF s = <<>> THEN <<>> ELSE LET r == Prod(Tail(s)) IN <<j \div r>> \o Places(Tail(s), j % r)
RECURSIVE Number(_, _)
Number(s, p) == IF s = <<>> THEN 0 ELSE Head(p) * Prod(Tail(s)) + Number(Tail(s), Tail(p))

\* bool < int < float
Rank(d) == CASE d = "bool" -> 0 [] d = "int" -> 1 [] OTHER -> 2
Wide(l) == LET m == Max({Rank(l[j].d) : j \in 1..Len(l)}) IN CASE m = 0 -> "bool" [] m = 1 -> "int" [] OTHER -> "float"

\* Stacked with zeros where a tensor is smaller
Pad(l) ==
    IF \E j \in 1..Len(l) : l[j].k # "t" \/ Len(l[j].s) # Len(l[1].s) THEN Bad
    ELSE LET shape == TLCEval([a \in 1..Len(l[1].s) |-> Max({l[j].s[a] : j \in 1..Len(l)})])
             full == <<Len(l)>> \o shape
             At(q) == LET p == Places(full, q)
                          x == l[p[1] + 1]
                          r == Tail(p)
                      IN IF \A a \in 1..Len(r) : r[a] < x.s[a] THEN x.v[Number(x.s, r) + 1] ELSE 0
         IN [k |-> "t", d |-> Wide(l), s |-> full, v |-> TLCEval([q \in 1..Prod(full) |-> At(q - 1)])]
Stack(l) == IF \E j \in 1..Len(l) : l[j].k # "t" \/ l[j].s # l[1].s THEN Bad ELSE Pad(l)
List(l) == [k |-> "l", l |-> l]

Names(v) == [j \in 1..Len(v.e) |-> v.e[j].n]
Has(v, n) == \E j \in 1..Len(v.e) : v.e[j].n = n
Of(v, n) == v.e[CHOOSE j \in 1..Len(v.e) : v.e[j].n = n].v
Column(l, n) == [j \in 1..Len(l) |-> Of(l[j], n)]

RECURSIVE Collate(_), Fields(_)
\* All have the fields of the first
Fields(l) == IF \E j \in 1..Len(l) : l[j].k # l[1].k \/ \E n \in 1..Len(l[1].e) : ~Has(l[j], l[1].e[n].n) THEN <<[n |-> "", v |-> Bad]>>
             ELSE [j \in 1..Len(l[1].e) |-> [n |-> l[1].e[j].n, v |-> Collate(Column(l, l[1].e[j].n))]]
AnyBad(e) == \E j \in 1..Len(e) : e[j].v = Bad
Collate(l) == CASE l[1].k = "t" -> Pad(l)
                [] l[1].k \in {"d", "c"} -> LET e == Fields(l) IN IF AnyBad(e) THEN Bad ELSE [l[1] EXCEPT !.e = e]
                [] OTHER -> List(l)

\* To a type: "" (none), "dict" or a class, whose fields F gives
To(F, t, v) == CASE t = "" \/ (v.k = "c" /\ v.n = t) \/ (v.k = "d" /\ t = "dict") -> v
                 [] v.k \notin {"d", "c"} -> Bad
                 [] t = "dict" -> [k |-> "d", e |-> v.e]
                 [] {v.e[j].n : j \in 1..Len(v.e)} # {F[t][j] : j \in 1..Len(F[t])} -> Bad
                 [] OTHER -> [k |-> "c", n |-> t, e |-> [j \in 1..Len(F[t]) |-> [n |-> F[t][j], v |-> Of(v, F[t][j])]]]
\* A batch of samples with own actions for fields: sequence of <<field, action>>, to type t
Action(acts, n) == IF \E j \in 1..Len(acts) : acts[j][1] = n THEN acts[CHOOSE j \in 1..Len(acts) : acts[j][1] = n][2] ELSE "generic"
Do(a, l) == CASE a = "stack" -> Stack(l) [] a = "list" -> List(l) [] a = "pad" -> (IF l[1].k = "t" THEN Pad(l) ELSE Bad) [] OTHER -> Collate(l)
Batch(F, l, acts, t) ==
    IF l[1].k \notin {"d", "c"} \/ \E j \in 1..Len(l) : l[j].k # l[1].k \/ \E n \in 1..Len(l[1].e) : ~Has(l[j], l[1].e[n].n) THEN Bad
    ELSE LET e == [j \in 1..Len(l[1].e) |-> [n |-> l[1].e[j].n, v |-> Do(Action(acts, l[1].e[j].n), Column(l, l[1].e[j].n))]]
         IN IF AnyBad(e) THEN Bad ELSE To(F, t, [k |-> "d", e |-> e])
=============================================================================
