--------------------------- MODULE CollateTrace -----------------------------
(***************************************************************************)
(* Judges batches.  T.F: the fields of the classes.  Events                *)
(*  "pad" l ok v       tensors padded and stacked   "gen" l ok v: generic  *)
(*  "batch" l acts t ok v     _batch                                       *)
(*  "default" l enc raw bt ok v  encode, batch, encode_batch of the default *)
(*  task encoder for these types; sf: fields which are always lists        *)
(***************************************************************************)
EXTENDS CollateOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, bad
vars == <<tid, i, bad>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""

First(l, t) == IF t # "" THEN t ELSE IF l[1].k = "c" THEN l[1].n ELSE "dict"
Default(e) ==
    LET l == TLCEval([j \in 1..Len(e.l) |-> To(T.F, e.enc, e.l[j])]) IN
    IF \E j \in 1..Len(l) : l[j] = Bad THEN Bad
    ELSE LET b == TLCEval(Batch(T.F, l, IF l[1].k = "c" /\ l[1].n = "S" THEN << <<"__subflavor__", "list">>, <<"__subflavors__", "list">> >> ELSE <<>>, First(l, e.raw)))
         IN IF b = Bad THEN Bad ELSE To(T.F, e.bt, b)

\* The same value; the order of fields of a dict does not matter
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "t" -> a = b
         [] a.k = "x" -> a.v = b.v
         [] a.k = "l" -> Len(a.l) = Len(b.l) /\ \A j \in 1..Len(a.l) : Same(a.l[j], b.l[j])
         [] a.k \in {"d", "c"} -> /\ (a.k = "c" => a.n = b.n)
                                  /\ Len(a.e) = Len(b.e)
                                  /\ \A j \in 1..Len(a.e) : Has(b, a.e[j].n) /\ Same(a.e[j].v, Of(b, a.e[j].n))
         [] OTHER -> FALSE
Judge(e, r) == IF e.ok # (r # Bad) THEN (IF e.ok THEN "batched-what-does-not-fit" ELSE "not-batched")
               ELSE IF e.ok /\ ~Same(e.v, r) THEN "wrong-batch" ELSE ""
Next ==
    /\ bad = "" /\ i < Len(T.evs) /\ i' = i + 1 /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1] IN
       bad' = CASE e.e = "pad" -> Judge(e, TLCEval(Pad(e.l)))
                [] e.e = "gen" -> Judge(e, TLCEval(Collate(e.l)))
                [] e.e = "batch" -> Judge(e, TLCEval(Batch(T.F, e.l, e.acts, First(e.l, e.t))))
                [] OTHER -> Judge(e, TLCEval(Default(e)))
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
