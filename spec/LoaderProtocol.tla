--------------------------- MODULE LoaderProtocol ---------------------------
(***************************************************************************)
(* All interleavings of the consumer (next, save, restore a new loader)    *)
(* and the worker processes.                                               *)
(***************************************************************************)
EXTENDS LoaderOps

CONSTANTS N, Lens, CkMin, NCk, MaxDeliver, MaxSaves
LensV == {<<1, 1>>, <<2, 1>>, <<1, 3>>, <<3, 0>>, <<0, 0>>}
LensW == {<<1, 1, 1>>, <<2, 0, 1>>}
VARIABLES L, nd, saved, pos, got, err
vars == <<L, nd, saved, pos, got, err>>
\* pos[x]: number of samples of worker x delivered in the (restored) history; got: the last
\* delivery of this epoch of this loader

Init == \E len \in Lens : /\ L = New(N, len, CkMin, NCk, Fresh(N))
                          /\ nd = 0 /\ saved = <<>> /\ pos = [x \in 0..(N - 1) |-> 0] /\ got = -1 /\ err = ""

IterA == /\ L.phase \in {"new", "over"} /\ nd < MaxDeliver
         /\ L' = Iter(L) /\ got' = -1 /\ UNCHANGED <<nd, saved, pos, err>>
CallNext == /\ L.phase = "idle" /\ nd < MaxDeliver
            /\ L' = [L EXCEPT !.phase = "wait"] /\ UNCHANGED <<nd, saved, pos, got, err>>
Worker(s) == /\ L.started /\ L.p[s].tasks # <<>>
             /\ \E store \in BOOLEAN : L' = WStep(L, s, store)
             /\ UNCHANGED <<nd, saved, pos, got, err>>
\* in a call of next
Consume ==
    /\ L.phase = "wait"
    /\ LET M == SkipDead(L)
       IN IF Exhausted(M)
          THEN /\ L' = Ended(M) /\ nd' = nd + 1 /\ UNCHANGED <<saved, pos, got, err>>
          ELSE IF Head1(M).got
          THEN LET h == Head1(M)  x == Wk(M, h.s)
               IN /\ L' = Hand(M, h.s, h.i) /\ nd' = nd + 1 /\ pos' = [pos EXCEPT ![x] = @ + 1]
                  /\ got' = h.s
                  /\ err' = IF h.i # pos[x] THEN "wrong sample"
                            ELSE IF \E d \in 1..(N - 1) : LET y == (got + d) % N IN
                                      /\ M.status[y]
                                      /\ \A c \in 1..d : (got + c) % N # h.s
                                 THEN "not round robin" ELSE err
                  /\ UNCHANGED saved
          ELSE /\ M.dq # <<>> /\ L' = Get(M) /\ UNCHANGED <<nd, saved, pos, got, err>>
SaveA == /\ L.phase # "wait" /\ Len(saved) < MaxSaves
         /\ IF CanSave(L)
            THEN /\ saved' = Append(saved, [S |-> Save(L), pos |-> pos])
                 /\ err' = IF Exact(Save(L), [x \in 0..(N - 1) |-> pos[x] - 1], L.len) THEN err ELSE "inexact state"
            ELSE /\ UNCHANGED saved /\ err' = "no checkpoint"
         /\ UNCHANGED <<L, nd, pos, got>>
RestoreA == \E j \in DOMAIN saved :
                /\ L.phase # "wait" /\ L.started
                /\ L' = New(N, L.len, CkMin, NCk, saved[j].S) /\ pos' = saved[j].pos /\ got' = -1
                /\ UNCHANGED <<nd, saved, err>>
WorkerAny == \E s \in 0..(N - 1) : Worker(s)
Next == IterA \/ CallNext \/ Consume \/ SaveA \/ RestoreA \/ WorkerAny
Spec == Init /\ [][Next]_vars /\ WF_vars(Consume) /\ \A s \in 0..(N - 1) : WF_vars(Worker(s))

NoError == err = ""
\* a waiting consumer always has somebody to wait for
NoDeadlock == L.phase = "wait" => ENABLED Consume \/ ENABLED WorkerAny
\* a call of next always returns
Returns == (L.phase = "wait") ~> (L.phase # "wait")
\* no worker is ahead of the consumer by more than its tasks
Ahead == \A s \in 0..(N - 1) : L.p[s].i - (L.cnt[Wk(L, s)] + 1) <= 2 * N
=============================================================================
