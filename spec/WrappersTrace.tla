--------------------------- MODULE WrappersTrace ---------------------------
(***************************************************************************)
(* Judges recorded traces of real pipelines against the automata of        *)
(* Wrappers.  One trace: [nodes, w, W, ev].  Besides the events of the     *)
(* edges a trace has "s" (state saved in slot v[1]) and "R" (a pipeline    *)
(* restored from that slot continues).                                     *)
(***************************************************************************)
EXTENDS Wrappers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, st, snap, bad
vars == <<tid, i, st, snap, bad>>

T == Traces[tid]
StartOf(t) == [n \in 1..Len(Traces[t].nodes) |-> Start(Traces[t].nodes[n])]

Init ==
    /\ tid \in 1..Len(Traces)
    /\ i = 0
    /\ st = StartOf(tid)
    /\ snap = [k \in {0} |-> StartOf(tid)]
    /\ bad = ""

\* A restored pipeline has no running iterators. An epoch (at the root) which was saved right after
\* its last sample is over: the restored loader may start with the next epoch directly.
Restored(s) ==
    [n \in DOMAIN s |->
        IF T.nodes[n].t = "epochize" /\ n = Len(T.nodes)
        THEN [s[n] EXCEPT !.rs = (s[n].pos > 0 /\ s[n].pos = LocalLength(T.nodes[n].n, T.w, T.W))]
        ELSE s[n]]

Step ==
    LET e == T.ev[i + 1]
    IN IF e.e = "s" THEN
           /\ snap' = [k \in DOMAIN snap \cup {e.v[1]} |-> IF k = e.v[1] THEN st ELSE snap[k]]
           /\ UNCHANGED <<st, bad>>
       ELSE IF e.e = "R" THEN
           /\ st' = Restored(snap[e.v[1]])
           /\ UNCHANGED <<snap, bad>>
       ELSE LET r == Apply(T.nodes, st, e, T.w, T.W)
            IN /\ st' = r.st
               /\ bad' = r.bad
               /\ UNCHANGED snap

Next ==
    /\ bad = ""
    /\ i < Len(T.ev)
    /\ i' = i + 1
    /\ UNCHANGED tid
    /\ Step
    /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad', T.ev[i + 1]>>))
    /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))

Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
