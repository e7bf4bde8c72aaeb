---------------------------- MODULE LoaderTrace ----------------------------
(***************************************************************************)
(* Judges recorded behaviours of the real loader and its workers.          *)
(*  "N"            a new loader                                            *)
(*  "I"            iteration starts (or the next epoch)                    *)
(*  "w" s, x, k    process s made the sample at position k of an epoch of  *)
(*                 worker x; k = -1: it reached its end; -2: nothing left  *)
(*  "n"            the consumer waits for the next sample                  *)
(*  "g"            it takes a result from the queue                        *)
(*  "h"            it hands a sample out: "d" x, k  the sample k of worker *)
(*                 x; "E": the epoch ends                                  *)
(*  "s" k, c, o, p, x   a state is saved: checkpoint indices c, offsets o, *)
(*                 positions p in the dataset (all per worker; -1 unknown),*)
(*                 next worker x                                           *)
(*  "R" k          a new loader restored from state number k               *)
(*  "z" k          number of processes alive after shutting down           *)
(***************************************************************************)
EXTENDS LoaderOps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, L, saved, hand, bad
vars == <<tid, i, L, saved, hand, bad>>
T == Traces[tid]
NewL(S) == New(T.n, T.len, T.ckmin, 2, S)
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ saved = <<>> /\ hand = <<-1, 0>> /\ bad = ""
        /\ L = New(Traces[tid].n, Traces[tid].len, Traces[tid].ckmin, 2, Fresh(Traces[tid].n))

\* where the process will be after its next task
After(s) == Adv(L.p[s], Len0(L, s))
Keep == UNCHANGED saved
ToState(e) == [ck |-> [x \in 0..(T.n - 1) |-> e.c[x + 1]], off |-> [x \in 0..(T.n - 1) |-> e.o[x + 1]]]
SaveBad(e) ==
    IF ~L.started \/ e.c = <<>> THEN ""
    ELSE IF e.x # -1 /\ e.x # L.nextw THEN "wrong-next-worker"
    ELSE IF \E x \in 0..(T.n - 1) : e.c[x + 1] + e.o[x + 1] # L.cnt[x] + 1 \/ e.o[x + 1] < 0 THEN "state-of-other-samples"
    ELSE IF \E x \in 0..(T.n - 1) : T.len[x + 1] > 0 /\ e.p[x + 1] # -1 /\ (e.c[x + 1] - e.p[x + 1]) % T.len[x + 1] # 0 THEN "inconsistent-checkpoint"
    ELSE ""
Step ==
    LET e == T.ev[i + 1]
        M == SkipDead(L)
    IN CASE e.e = "I" -> L' = Iter(L) /\ Keep /\ bad' = IF L.phase \in {"new", "over"} THEN "" ELSE "restarted-early"
         [] e.e = "n" -> L' = [L EXCEPT !.phase = "wait"] /\ Keep /\ bad' = ""
         [] e.e = "w" ->
              /\ Keep
              /\ IF L.p[e.s].tasks = <<>> THEN bad' = "step-without-task" /\ UNCHANGED L
                 ELSE /\ L' = WStep(L, e.s, TRUE)
                      /\ bad' = IF L.p[e.s].end THEN (IF e.k = -2 THEN "" ELSE "sample-after-end")
                                ELSE IF After(e.s)[1] = "stop" THEN (IF e.k = -1 THEN "" ELSE "sample-after-end")
                                ELSE IF e.k < 0 THEN "worker-ends-early"
                                ELSE IF e.x # Wk(L, e.s) THEN "sample-of-other-worker"
                                ELSE IF e.k # After(e.s)[2].k - 1 THEN "wrong-sample-produced" ELSE ""
         [] e.e = "g" -> L' = Get(M) /\ Keep /\ bad' = ""
         [] e.e = "h" ->
              /\ Keep
              /\ IF Exhausted(M) THEN bad' = "sample-after-end" /\ L' = M
                 ELSE LET h == Head1(M)  x == Wk(M, h.s)
                      IN /\ L' = Hand(M, h.s, h.i)
                         /\ bad' = IF ~h.got THEN "not-round-robin"
                                   ELSE IF h.i # L.cnt[x] + 1 THEN "sample-lost-or-repeated" ELSE ""
         [] e.e = "d" -> /\ UNCHANGED L /\ Keep
                         /\ bad' = IF e.x # hand[1] THEN "not-round-robin"
                                   ELSE IF e.k # hand[2] % T.len[e.x + 1] THEN "wrong-sample-delivered" ELSE ""
         [] e.e = "E" -> L' = Ended(M) /\ Keep /\ bad' = IF Exhausted(M) THEN "" ELSE "ends-early"
         [] e.e = "s" -> /\ UNCHANGED L /\ saved' = Append(saved, IF CanSave(L) THEN Save(L) ELSE Fresh(T.n))
                         /\ bad' = IF CanSave(L) THEN SaveBad(e) ELSE "model-has-no-checkpoint"
         [] e.e = "R" -> L' = NewL(saved[e.k]) /\ Keep /\ bad' = ""
         [] e.e = "N" -> L' = NewL(Fresh(T.n)) /\ Keep /\ bad' = ""
         [] e.e = "z" -> UNCHANGED L /\ Keep /\ bad' = IF e.k = 0 THEN "" ELSE "workers-not-terminated"
Next == /\ bad = "" /\ i < Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tid
        /\ Step
        /\ hand' = IF T.ev[i + 1].e = "h" /\ ~Exhausted(SkipDead(L)) THEN LET h == Head1(SkipDead(L)) IN <<Wk(L, h.s), h.i>> ELSE hand
        /\ (bad' # "" => PrintT(<<"REJECT", tid, i + 1, bad'>>))
        /\ (bad' = "" /\ i + 1 = Len(T.ev) => PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
Accepted == bad = ""
=============================================================================
