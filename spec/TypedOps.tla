------------------------------ MODULE TypedOps ------------------------------
(* Which value a plain configuration has as a value of a declared type, or  *)
(* at which places it does not conform.                                     *)
(*                                                                          *)
(* Data and values: k = int, str, float, bool, none, path with the text v;  *)
(* obj: the object named v; list, tuple, set: l; dict: entries e (n, v);    *)
(* inst: of the class n with fields e; call: of the object n with its       *)
(* arguments e.                                                             *)
(* Types: k = int, str, float, bool, none, any, path, dict0, list0;         *)
(*   lit (l: data), union (l), list, set, tupv, dict (t), tup (l),          *)
(*   rec (n, f: fields n, t, init, d: <<>> or <<default>>, neg: fields      *)
(*   which must not be negative, else the constructor fails),               *)
(*   fn (callable), type (n: base), cls (n: declared class).                *)
(* R: the objects which can be named: n, kind (fn or cls), base: its base   *)
(*   classes, ps: parameters n, t, k (pk, ko, vk, vp), d.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[j] : j \in 1..Len(s)}
Scalars == {"int", "str", "float", "bool", "none"}
Names(e) == {e[j].n : j \in 1..Len(e)}
Get(e, n) == e[CHOOSE j \in 1..Len(e) : e[j].n = n].v
MODULE_ == "__module__"
CLASS_ == "__class__"
FUNCTION_ == "__function__"

\* A place: the path p to it, from the root (or, abs, from the arguments of a call)
Here == {[abs |-> FALSE, p |-> <<>>]}
Unplaced == {[abs |-> TRUE, p |-> <<"?">>]}
At(step, ps) == {IF x.abs THEN x ELSE [x EXCEPT !.p = <<step>> \o @] : x \in ps}
Abs(ps) == {[x EXCEPT !.abs = TRUE] : x \in ps}
Ok(v) == [ok |-> TRUE, v |-> v, p |-> {}]
Bad(ps) == [ok |-> FALSE, v |-> [k |-> "none", v |-> "None"], p |-> ps]

Num(t, d) == CASE t = "int" -> d \in {"int", "bool"}
               [] t = "float" -> d \in {"int", "float", "bool"}
               [] OTHER -> t = d

RECURSIVE SameV(_, _)
SameV(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k \in {"list", "tuple"} -> Len(a.l) = Len(b.l) /\ \A j \in 1..Len(a.l) : SameV(a.l[j], b.l[j])
         [] a.k = "set" -> Len(a.l) = Len(b.l) /\ \A x \in Range(a.l) : \E y \in Range(b.l) : SameV(x, y)
         [] a.k \in {"dict", "inst", "call"} ->
              /\ a.k = "dict" \/ a.n = b.n
              /\ Len(a.e) = Len(b.e)
              /\ Names(a.e) = Names(b.e)
              /\ \A n \in Names(a.e) : SameV(Get(a.e, n), Get(b.e, n))
         [] OTHER -> a.v = b.v

IsImport(d) == d.k = "dict" /\ MODULE_ \in Names(d.e) /\ Names(d.e) \cap {CLASS_, FUNCTION_} # {}
Negative(v) == v.k = "int" /\ v.v \in {"-1", "-2", "-3"}

RECURSIVE Conv(_, _, _, _, _)
RECURSIVE Inst(_, _, _, _)
RECURSIVE Call(_, _, _, _, _)

Seq_(ts, l, s, im, R) == TLCEval([j \in 1..Len(l) |-> Conv(ts[j], l[j], s, im, R)])
AllOk(rs) == \A j \in 1..Len(rs) : rs[j].ok
BadIdx(rs) == UNION {At(ToString(j - 1), rs[j].p) : j \in {j \in 1..Len(rs) : ~rs[j].ok}}
Vals(rs) == [j \in 1..Len(rs) |-> rs[j].v]
Const(t, n) == [j \in 1..n |-> t]

\* The fields of a class which are given, or have no default
Fields(t, e) == SelectSeq(t.f, LAMBDA f : f.init /\ (f.n \in Names(e) \/ f.d = <<>>))
Record(t, d, s, im, R) ==
    LET fs == Fields(t, d.e)
        rs == TLCEval([j \in 1..Len(fs) |-> IF fs[j].n \in Names(d.e) THEN Conv(fs[j].t, Get(d.e, fs[j].n), s, im, R) ELSE Bad(Here)])
        unknown == Names(d.e) \ {t.f[j].n : j \in {j \in 1..Len(t.f) : t.f[j].init}}
        val(f) == IF \E j \in 1..Len(fs) : fs[j].n = f.n THEN rs[CHOOSE j \in 1..Len(fs) : fs[j].n = f.n].v ELSE f.d[1]
        bad == UNION {At(fs[j].n, rs[j].p) : j \in {j \in 1..Len(fs) : ~rs[j].ok}} \cup (IF s /\ unknown # {} THEN Here ELSE {})
        e == [j \in 1..Len(t.f) |-> [n |-> t.f[j].n, v |-> val(t.f[j])]]
    IN IF bad # {} THEN Bad(bad)
       ELSE IF \E j \in 1..Len(e) : e[j].n \in Range(t.neg) /\ Negative(e[j].v) THEN Bad(Here)
       ELSE Ok([k |-> "inst", n |-> t.n, e |-> e])

RECURSIVE First(_, _, _, _, _)
First(ts, d, s, im, R) ==
    IF ts = <<>> THEN Bad({})
    ELSE LET r == TLCEval(Conv(Head(ts), d, s, im, R))
             q == First(Tail(ts), d, s, im, R)
         IN IF r.ok THEN r ELSE IF q.ok THEN q ELSE Bad(r.p \cup q.p)

Conv(t, d, s, im, R) ==
    CASE t.k \in Scalars -> IF Num(t.k, d.k) THEN Ok(d) ELSE Bad(Here)
      [] t.k = "any" -> IF im /\ IsImport(d) THEN Inst(t, d, s, R) ELSE Ok(d)
      [] t.k = "lit" -> IF \E x \in Range(t.l) : SameV(x, d) THEN Ok(d) ELSE Bad(Here)
      [] t.k = "union" -> First(t.l, d, s, im, R)
      [] t.k = "rec" -> IF d.k # "dict" THEN Bad(Here) ELSE Record(t, d, s, im, R)
      [] t.k = "list" -> IF d.k # "list" THEN Bad(Here)
                         ELSE LET rs == Seq_(Const(t.t, Len(d.l)), d.l, s, im, R) IN IF AllOk(rs) THEN Ok([k |-> "list", l |-> Vals(rs)]) ELSE Bad(BadIdx(rs))
      [] t.k = "tupv" -> IF d.k # "list" THEN Bad(Here)
                         ELSE LET rs == Seq_(Const(t.t, Len(d.l)), d.l, s, im, R) IN IF AllOk(rs) THEN Ok([k |-> "tuple", l |-> Vals(rs)]) ELSE Bad(BadIdx(rs))
      [] t.k = "tup" -> IF d.k # "list" THEN Bad(Here)
                        ELSE IF Len(d.l) # Len(t.l) THEN Bad(Here)
                        ELSE LET rs == Seq_(t.l, d.l, s, im, R) IN IF AllOk(rs) THEN Ok([k |-> "tuple", l |-> Vals(rs)]) ELSE Bad(BadIdx(rs))
      [] t.k = "set" -> IF d.k # "list" THEN Bad(Here)
                        ELSE LET rs == Seq_(Const(t.t, Len(d.l)), d.l, s, im, R)
                             IN IF ~AllOk(rs) THEN Bad(BadIdx(rs))
                                ELSE IF \E i, j \in 1..Len(rs) : i # j /\ SameV(rs[i].v, rs[j].v) THEN Bad(Here)
                                ELSE Ok([k |-> "set", l |-> Vals(rs)])
      [] t.k = "dict" -> IF d.k # "dict" THEN Bad(Here)
                         ELSE LET rs == TLCEval([j \in 1..Len(d.e) |-> Conv(t.t, d.e[j].v, s, im, R)])
                              IN IF AllOk(rs) THEN Ok([k |-> "dict", e |-> [j \in 1..Len(d.e) |-> [n |-> d.e[j].n, v |-> rs[j].v]]])
                                 ELSE Bad(UNION {At(d.e[j].n, rs[j].p) : j \in {j \in 1..Len(rs) : ~rs[j].ok}})
      [] t.k = "dict0" -> IF d.k = "dict" THEN Ok(d) ELSE Bad(Here)
      [] t.k = "list0" -> IF d.k = "list" THEN Ok(d) ELSE Bad(Here)
      [] t.k = "path" -> IF d.k \in {"str", "path"} THEN Ok([k |-> "path", v |-> d.v]) ELSE Bad(Here)
      [] t.k \in {"fn", "type", "cls"} -> IF im /\ IsImport(d) THEN Inst(t, d, s, R) ELSE Ok(d)

\* A class or function which is named in the configuration
Inst(t, d, s, R) ==
    LET has(n) == n \in Names(d.e)
        mode == CASE t.k = "type" -> "type" [] t.k = "fn" -> "fn" [] has(CLASS_) -> "inst" [] has(FUNCTION_) -> "call" [] OTHER -> "default"
        key == CASE mode \in {"type", "inst"} -> CLASS_ [] OTHER -> FUNCTION_
        rest == SelectSeq(d.e, LAMBDA x : x.n \notin {MODULE_, key})
    IN IF mode = "default" /\ ~has(MODULE_) THEN Call(t, [k |-> "dict", e |-> d.e], s, TRUE, R)
       ELSE IF ~has(MODULE_) \/ ~has(key) THEN Bad(Here)
       ELSE LET hit == {j \in 1..Len(R) : R[j].n = Get(d.e, key).v /\ R[j].m = Get(d.e, MODULE_).v}
            IN IF hit = {} THEN Bad(Unplaced)
               ELSE LET o == R[CHOOSE j \in hit : TRUE]
                    IN CASE mode = "type" -> IF o.kind # "cls" \/ t.n \notin Range(o.base) THEN Bad(Here)
                                             ELSE IF s /\ rest # <<>> THEN Bad(Here) ELSE Ok([k |-> "obj", v |-> o.n])
                         [] mode = "fn" -> IF o.kind \notin {"fn", "cls"} THEN Bad(Here)
                                           ELSE IF s /\ rest # <<>> THEN Bad(Here) ELSE Ok([k |-> "obj", v |-> o.n])
                         [] mode = "inst" -> IF o.kind # "cls" THEN Bad(Here) ELSE Call(o, [k |-> "dict", e |-> rest], s, TRUE, R)
                         [] OTHER -> IF o.kind \notin {"fn", "cls"} THEN Bad(Here) ELSE Call(o, [k |-> "dict", e |-> rest], s, TRUE, R)

\* A call of o with arguments from a mapping or a list (im: imports are allowed inside)
Call(o, d, s, im, R) ==
    LET ps == o.ps
        named == {ps[j].n : j \in {j \in 1..Len(ps) : ps[j].k \in {"pk", "ko"}}}
        vk == {j \in 1..Len(ps) : ps[j].k = "vk"}
        vp == {j \in 1..Len(ps) : ps[j].k = "vp"}
    IN IF d.k = "dict"
       THEN LET missing == \E j \in 1..Len(ps) : ps[j].k \in {"pk", "ko"} /\ ps[j].d = <<>> /\ ps[j].n \notin Names(d.e)
                extra == SelectSeq(d.e, LAMBDA x : x.n \notin named)
                cs == TLCEval([n \in named \cap Names(d.e) |-> Conv(ps[CHOOSE j \in 1..Len(ps) : ps[j].n = n].t, Get(d.e, n), s, im, R)])
                c(n) == cs[n]
                xs == TLCEval([j \in 1..Len(extra) |-> Conv(ps[CHOOSE i \in vk : TRUE].t, extra[j].v, s, im, R)])
                x(j) == xs[j]
                bad == (IF missing \/ (s /\ vk = {} /\ extra # <<>>) THEN Unplaced ELSE {})
                       \cup UNION {Abs(At(n, c(n).p)) : n \in {n \in named \cap Names(d.e) : ~c(n).ok}}
                       \cup (IF vk = {} THEN {} ELSE UNION {Abs(At(ps[CHOOSE i \in vk : TRUE].n, x(j).p)) : j \in {j \in 1..Len(extra) : ~x(j).ok}})
                arg(p) == [n |-> p.n, v |-> IF p.n \in Names(d.e) THEN c(p.n).v ELSE p.d[1]]
                given == SelectSeq(ps, LAMBDA p : p.k \in {"pk", "ko"})
            IN IF bad # {} THEN Bad(bad)
               ELSE Ok([k |-> "call", n |-> o.n, e |-> [j \in 1..Len(given) |-> arg(given[j])]
                          \o (IF vk = {} THEN <<>> ELSE [j \in 1..Len(extra) |-> [n |-> extra[j].n, v |-> x(j).v]])
                          \o (IF vp = {} THEN <<>> ELSE <<[n |-> ps[CHOOSE i \in vp : TRUE].n, v |-> [k |-> "tuple", l |-> <<>>]]>>)])
       ELSE IF d.k = "list"
       THEN LET pos == SelectSeq(ps, LAMBDA p : p.k = "pk")
                n == IF Len(d.l) < Len(pos) THEN Len(d.l) ELSE Len(pos)
                m == IF vp = {} THEN n ELSE Len(d.l)
                cs == TLCEval([j \in 1..m |-> IF j <= Len(pos) THEN Conv(pos[j].t, d.l[j], s, im, R) ELSE Conv(ps[CHOOSE i \in vp : TRUE].t, d.l[j], s, im, R)])
                c(j) == cs[j]
                nm(j) == IF j <= Len(pos) THEN pos[j].n ELSE ps[CHOOSE i \in vp : TRUE].n
                bad == (IF (\E j \in (n + 1)..Len(pos) : pos[j].d = <<>>) \/ (s /\ m < Len(d.l)) THEN Unplaced ELSE {})
                       \cup UNION {Abs(At(nm(j), c(j).p)) : j \in {j \in 1..m : ~c(j).ok}}
            IN IF bad # {} THEN Bad(bad)
               ELSE Ok([k |-> "call", n |-> o.n,
                        e |-> [j \in 1..Len(pos) |-> [n |-> pos[j].n, v |-> IF j <= n THEN c(j).v ELSE pos[j].d[1]]]
                          \o (IF vp = {} THEN <<>> ELSE <<[n |-> ps[CHOOSE i \in vp : TRUE].n, v |-> [k |-> "tuple", l |-> [j \in 1..(m - n) |-> c(n + j).v]]]>>)])
       ELSE Bad(Unplaced)

\* The plain data of a value
RECURSIVE Write(_)
Write(v) ==
    CASE v.k \in {"list", "tuple"} -> [k |-> "list", l |-> [j \in 1..Len(v.l) |-> Write(v.l[j])]]
      [] v.k \in {"dict", "inst"} -> [k |-> "dict", e |-> [j \in 1..Len(v.e) |-> [n |-> v.e[j].n, v |-> Write(v.e[j].v)]]]
      [] OTHER -> v
=============================================================================
