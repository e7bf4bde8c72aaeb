------------------------------- MODULE CookOps ------------------------------
(* Which cooker transforms a sample.  A cooker: sub ("": any), has: pairs    *)
(* of a subflavor and its value, cond: the sample numbers it accepts,       *)
(* all: it accepts all.  A sample: crude, sub, subs (pairs), id.            *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[j] : j \in 1..Len(s)}
Matches(c, s) == /\ c.sub = "" \/ c.sub = s.sub
                 /\ Range(c.has) \subseteq Range(s.subs)
                 /\ c.all \/ s.id \in Range(c.cond)
\* Number of the cooker, 0: passed on as it is, -1: an error
Cooker(cs, s) ==
    IF ~s.crude THEN 0
    ELSE LET m == {j \in 1..Len(cs) : Matches(cs[j], s)}
         IN IF m = {} THEN -1 ELSE CHOOSE j \in m : \A k \in m : j <= k
=============================================================================
