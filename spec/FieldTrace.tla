----------------------------- MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Judges samples which were assembled from the files of a shard.          *)
(*                                                                         *)
(* A trace: kind: "map" (fields: name, opts), "fn" (sample loader: it      *)
(* notes which parts it is given; filter: the parts it asks for) or        *)
(* "case" (an expression on a value); src: the samples in order: i, parts  *)
(* (a value), broken: parts which cannot be decoded; sub, subs; evs:       *)
(*   "d" i f keys sub subs   sample i is delivered with the values f (in   *)
(*                           the order of the fields), keys are right      *)
(*   "k" ...                 the same for a sample on its own              *)
(*   "h" i                   the error of sample i is reported             *)
(*   "e"                     the epoch ends                                *)
(*   "v" i f, "x" i          the value or error of case i                  *)
(***************************************************************************)
EXTENDS FieldOps, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, pos, bad
vars == <<tid, i, pos, bad>>
T == Traces[tid]

Init == tid \in 1..Len(Traces) /\ i = 0 /\ pos = 0 /\ bad = ""

Range(s) == {s[j] : j \in 1..Len(s)}
Needed == IF T.kind = "map" THEN Parts(T.fields) ELSE Range(T.filter)
Result(s, f) == Select(s.parts, T.fields[f].opts)
Names(s) == {s.parts.m[j][1] : j \in 1..Len(s.parts.m)}
\* A file which is needed cannot be decoded, or a field cannot be found
Fails(s) == \/ Range(s.broken) \cap Needed # {}
            \/ T.kind = "map" /\ \E f \in 1..Len(T.fields) : Result(s, f).k = "err"

Same(e, s) ==
    IF Fails(s) THEN "incomplete-sample-delivered"
    ELSE IF T.kind = "map" /\ \E f \in 1..Len(T.fields) : e.f[f] # Result(s, f) THEN "wrong-field"
    ELSE IF T.kind = "fn" /\ Range(e.f) # {[k |-> "s", v |-> n] : n \in Names(s) \cap Needed} THEN "wrong-parts"
    ELSE IF e.sub # T.sub \/ Range(e.subs) # Range(T.subs) THEN "wrong-subflavors"
    ELSE IF ~e.keys THEN "wrong-keys-or-defaults"
    ELSE ""

Next ==
    /\ bad = "" /\ i < Len(T.evs)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ LET e == T.evs[i + 1]
           p == pos + 1
           of(n) == CHOOSE s \in Range(T.src) : s.i = n
       IN CASE e.e = "d" ->
                 /\ pos' = p
                 /\ bad' = IF p > Len(T.src) \/ T.src[p].i # e.i
                           THEN (IF Fails(of(e.i)) THEN "incomplete-sample-delivered" ELSE "sample-lost-or-invented")
                           ELSE Same(e, T.src[p])
            [] e.e = "h" ->
                 /\ pos' = p
                 /\ bad' = IF p > Len(T.src) \/ T.src[p].i # e.i THEN "error-of-another-sample"
                           ELSE IF ~Fails(T.src[p]) THEN "error-without-reason" ELSE ""
            [] e.e = "k" -> pos' = pos /\ bad' = Same(e, of(e.i))
            [] e.e = "e" -> pos' = 0 /\ bad' = IF p <= Len(T.src) THEN "sample-lost" ELSE ""
            [] e.e = "v" -> pos' = pos /\ bad' = IF Select(T.value, T.exprs[e.i]) # e.f[1] THEN "wrong-value" ELSE ""
            [] e.e = "x" -> pos' = pos /\ bad' = IF Select(T.value, T.exprs[e.i]).k # "err" THEN "value-not-found" ELSE ""
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
    /\ (bad' = "" /\ i + 1 = Len(T.evs) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
