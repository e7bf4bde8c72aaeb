------------------------------ MODULE FieldOps ------------------------------
(* What an access expression of a field map selects.  A value is a record:  *)
(*   k = "s": a plain value v (written as text), k = "l": a list e of       *)
(*   values, k = "d": a mapping m, pairs of key and value.                  *)
(* An expression is a list of options, an option a list of components       *)
(*   [n |-> name, i |-> the index it denotes, isi |-> it is an index].      *)
EXTENDS Integers, Sequences, FiniteSets

Err == [k |-> "err"]

RECURSIVE Access(_, _)
Access(v, path) ==
    IF path = <<>> THEN v
    ELSE LET c == Head(path)
         IN CASE v.k = "d" ->
                   LET hit == {j \in 1..Len(v.m) : v.m[j][1] = c.n}
                   IN IF hit = {} THEN Err ELSE Access(v.m[CHOOSE j \in hit : TRUE][2], Tail(path))
              [] v.k = "l" ->
                   IF ~c.isi THEN Err
                   ELSE LET j == IF c.i < 0 THEN Len(v.e) + c.i ELSE c.i
                        IN IF j < 0 \/ j >= Len(v.e) THEN Err ELSE Access(v.e[j + 1], Tail(path))
              [] OTHER -> Err

RECURSIVE Select(_, _)
Select(v, opts) ==
    IF opts = <<>> THEN Err
    ELSE LET r == Access(v, Head(opts)) IN IF r.k = "err" THEN Select(v, Tail(opts)) ELSE r

\* The files which are needed for the fields
Parts(fields) == {fields[f].opts[o][1].n : <<f, o>> \in {<<f, o>> \in (1..Len(fields)) \X (1..20) : o <= Len(fields[f].opts)}}
=============================================================================
