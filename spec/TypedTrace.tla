----------------------------- MODULE TypedTrace -----------------------------
(***************************************************************************)
(* Judges conversions by the code.  Events:                                *)
(*  "c" t d s im ok v p  d converted to the type t (s: strict, im: imports *)
(*                       allowed) gives v, or is refused at the place p    *)
(*  "x" i s ok v p       the same for the case i: type (i div n) and data  *)
(*                       (i mod n) of the trace                            *)
(*  "i" n d s ok v p     an instance for the default type n (a class of R) *)
(*  "f" n d s im ok v p  a call of n (of R) with the arguments d           *)
(*  "w" t v d            the value v of the type t is written as d         *)
(*  "m" want got         the function want is named, got is found          *)
(*  R: the objects which can be named                                      *)
(***************************************************************************)
EXTENDS TypedOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, bad
vars == <<tid, i, bad>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = ""

\* The unplaced errors of calls may hide those of their arguments and the reverse; every place of Conv is an error
Judge(e, r) ==
    IF e.ok THEN IF ~r.ok THEN "accepted-what-does-not-conform" ELSE IF ~SameV(e.v, r.v) THEN "wrong-value" ELSE ""
    ELSE IF r.ok THEN "refused-what-conforms"
    ELSE IF e.p \in {x.p : x \in r.p} THEN "" ELSE "wrong-place-of-error"

Of(n) == T.R[CHOOSE j \in 1..Len(T.R) : T.R[j].n = n]
Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1]
       IN bad' = CASE e.e = "c" -> Judge(e, TLCEval(Conv(e.t, e.d, e.s, e.im, T.R)))
                   [] e.e = "x" -> Judge(e, TLCEval(Conv(T.types[e.t], T.data[e.d], e.s, FALSE, <<>>)))
                   [] e.e = "i" -> Judge(e, TLCEval(Inst(Of(e.n) @@ [k |-> "cls"], e.d, e.s, T.R)))
                   [] e.e = "f" -> Judge(e, TLCEval(Call(Of(e.n), e.d, e.s, e.im, T.R)))
                   [] e.e = "w" -> IF SameV(Write(e.v), e.d) THEN "" ELSE "wrongly-written"
                   [] e.e = "m" -> IF e.want = e.got THEN "" ELSE "another-function"
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
