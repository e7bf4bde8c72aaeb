----------------------------- MODULE LoaderOps -----------------------------
(***************************************************************************)
(* The protocol between the consumer and the worker processes of a loader  *)
(* as functions on one state record.                                       *)
(*                                                                         *)
(* Every worker x has an endless stream of samples in epochs of len[x]     *)
(* samples; the sample with index i (from 0) of the worker.  Worker        *)
(* processes ("slots") are served round robin; after restoring, slot s     *)
(* plays worker (s + rot) % N.                                             *)
(*                                                                         *)
(* Process record: i next sample index; ep, k position in the stream;      *)
(* skip samples to skip; lws, has, end: state of the iteration (see Adv);  *)
(* tasks; ck checkpoints <<i, ep, k>>, newest last.                        *)
(* Consumer: send, rcvd, info (outstanding tasks), status, cyc, dq (data   *)
(* queue), phase; cnt last index delivered per worker; nextw.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Wk(L, s) == (s + L.rot) % L.N
Len0(L, s) == L.len[Wk(L, s) + 1]

\* Runs the iteration of a process to its next sample or its end: <<kind, record>>
RECURSIVE Adv(_, _)
Adv(r, n) ==
    IF r.k < n
    THEN IF r.skip > 0
         THEN Adv([r EXCEPT !.k = @ + 1, !.i = @ + 1, !.skip = @ - 1, !.lws = TRUE, !.has = TRUE], n)
         ELSE <<"data", [r EXCEPT !.k = @ + 1, !.i = @ + 1, !.lws = FALSE, !.has = TRUE]>>
    ELSE LET q == [r EXCEPT !.ep = @ + 1, !.k = 0]
         IN IF r.lws /\ r.has THEN Adv([q EXCEPT !.has = FALSE], n)
            ELSE <<"stop", q>>

Last(q) == q[Len(q)]
Trim(q, m) == IF Len(q) > m THEN SubSeq(q, Len(q) - m + 1, Len(q)) ELSE q
Ck(r) == <<r.i, r.ep, r.k>>
\* store: whether a checkpoint is due (time is up)
Due(L, r) == Last(r.ck)[1] + L.ckmin <= r.i \/ r.i <= 1
Store(L, r, store) == IF (Due(L, r) /\ store) \/ r.i <= 1 THEN [r EXCEPT !.ck = Trim(Append(@, Ck(r)), L.nck)] ELSE r
Force(L, r) == [r EXCEPT !.ck = Trim(Append(@, Ck(r)), L.nck + 1)]

\* ------------------------------------------------------------------ torch
\* The next active slot from cyc
NextSlot(L) == LET c == {d \in 0..(L.N - 1) : L.status[(L.cyc + d) % L.N]}
               IN IF c = {} THEN -1 ELSE (L.cyc + (CHOOSE d \in c : \A e \in c : d <= e)) % L.N
TryPut(L) ==
    LET s == NextSlot(L)
    IN IF s = -1 THEN L
       ELSE [L EXCEPT !.cyc = (s + 1) % L.N, !.p[s].tasks = Append(@, L.send),
                      !.info = Append(@, [s |-> s, got |-> FALSE, i |-> 0]), !.send = @ + 1]
RECURSIVE Puts(_, _)
Puts(L, n) == IF n = 0 THEN L ELSE Puts(TryPut(L), n - 1)
\* info[j] is the task number rcvd + j - 1
Fill(L) == Puts([L EXCEPT !.send = 0, !.rcvd = 0, !.info = <<>>, !.cyc = 0, !.dq = <<>>,
                          !.status = [s \in 0..(L.N - 1) |-> TRUE]], 2 * L.N)

\* ------------------------------------------------------------------ loader
Proc(ck, skip) == [i |-> ck[1], ep |-> ck[2], k |-> ck[3], skip |-> skip, lws |-> TRUE, has |-> FALSE,
                   end |-> FALSE, tasks |-> <<>>, ck |-> <<ck>>]
\* A saved state: [ck, off (per worker), nextw]; Fresh is the initial one
Fresh(N) == [ck |-> [x \in 0..(N - 1) |-> <<0, 0, 0>>], off |-> [x \in 0..(N - 1) |-> 0], nextw |-> 0]
New(N, len, ckmin, nck, S) ==
    [N |-> N, len |-> len, ckmin |-> ckmin, nck |-> nck, rot |-> S.nextw, started |-> FALSE,
     p |-> [s \in 0..(N - 1) |-> Proc(S.ck[(s + S.nextw) % N], S.off[(s + S.nextw) % N])],
     send |-> 0, rcvd |-> 0, info |-> <<>>, status |-> [s \in 0..(N - 1) |-> TRUE], cyc |-> 0, dq |-> <<>>,
     phase |-> "new", cnt |-> [x \in 0..(N - 1) |-> S.ck[x][1] + S.off[x] - 1], nextw |-> S.nextw, from |-> S]
\* iterating: starts the processes or begins the next epoch
RECURSIVE Flush(_, _)
WStep(L, s, store) ==
    LET r == L.p[s]  idx == Head(r.tasks)
    IN IF r.end THEN [L EXCEPT !.p[s].tasks = Tail(@)]
       ELSE LET a == Adv(r, Len0(L, s))
                q == IF a[1] = "data" THEN Store(L, a[2], store)
                     ELSE Force(L, [a[2] EXCEPT !.end = TRUE])
            IN [L EXCEPT !.p[s] = [q EXCEPT !.tasks = Tail(@)],
                         !.dq = Append(@, [t |-> idx, s |-> s, kind |-> a[1], i |-> a[2].i - 1])]
Flush(L, s) == IF L.p[s].tasks = <<>> THEN L ELSE Flush(WStep(L, s, TRUE), s)
RECURSIVE FlushAll(_, _)
FlushAll(L, s) == IF s = L.N THEN L ELSE FlushAll(Flush(L, s), s + 1)
Resume(r) == [r EXCEPT !.end = FALSE, !.lws = TRUE, !.has = FALSE]
Iter(L) ==
    IF L.phase = "new" THEN [Fill(L) EXCEPT !.phase = "idle", !.started = TRUE]
    ELSE LET F == FlushAll(L, 0)
         IN [Fill([F EXCEPT !.p = [s \in 0..(L.N - 1) |-> Resume(F.p[s])]]) EXCEPT !.phase = "idle"]
\* drops the tasks of slots which are exhausted
RECURSIVE SkipDead(_)
SkipDead(L) == IF L.info # <<>> /\ ~L.info[1].got /\ ~L.status[L.info[1].s]
               THEN SkipDead([L EXCEPT !.info = Tail(@), !.rcvd = @ + 1]) ELSE L
Exhausted(L) == L.info = <<>>
\* the consumer hands out task 1: <<worker, index>>
Head1(L) == L.info[1]
Hand(L, s, i) == TryPut([L EXCEPT !.cnt[Wk(L, s)] = i, !.nextw = (Wk(L, s) + 1) % L.N, !.phase = "idle",
                                  !.info = Tail(@), !.rcvd = @ + 1])
Ended(L) == [L EXCEPT !.phase = "over", !.nextw = 0]
\* takes one entry of the data queue; the entry may complete the call
Get(L) ==
    LET d == Head(L.dq)  M == [L EXCEPT !.dq = Tail(@)]
    IN IF d.kind = "stop" THEN TryPut([M EXCEPT !.status[d.s] = FALSE])
       ELSE [M EXCEPT !.info[d.t - L.rcvd + 1] = [s |-> d.s, got |-> TRUE, i |-> d.i]]
\* ------------------------------------------------------------------ saving
\* the newest checkpoint not after the last delivered sample
Found(L, s) == {j \in DOMAIN L.p[s].ck : L.p[s].ck[j][1] <= L.cnt[Wk(L, s)] + 1}
CanSave(L) == \A s \in 0..(L.N - 1) : Found(L, s) # {}
Save(L) ==
    IF ~L.started THEN L.from
    ELSE LET slot(x) == (x + L.N - L.rot) % L.N
             best(x) == L.p[slot(x)].ck[CHOOSE j \in Found(L, slot(x)) : \A h \in Found(L, slot(x)) : h <= j]
         IN [ck |-> [x \in 0..(L.N - 1) |-> best(x)],
             off |-> [x \in 0..(L.N - 1) |-> L.cnt[x] + 1 - best(x)[1]], nextw |-> L.nextw]
\* a state describes that exactly the samples up to cnt are delivered
Exact(S, cnt, len) ==
    \A x \in DOMAIN cnt : /\ S.off[x] >= 0 /\ S.ck[x][1] + S.off[x] = cnt[x] + 1
                          /\ S.ck[x][1] = S.ck[x][2] * len[x + 1] + S.ck[x][3]
=============================================================================
