---------------------------- MODULE Determinism -----------------------------
(***************************************************************************)
(* Why the stream of a loader is a function of its seed: N worker          *)
(* processes of each of several loaders run at any relative speed, at most *)
(* Prefetch samples ahead, and draw random numbers for every sample.       *)
(* Anything else in the main process draws from its own global generator.  *)
(*                                                                         *)
(* A draw is modelled by the history which determines it:                  *)
(*   Seeded = "index"    functions declared stateless: the generator is    *)
(*                       seeded from (worker, index) before each sample    *)
(*   Seeded = "process"  the generator of the worker process, seeded by    *)
(*                       the worker when the process starts                *)
(*   Seeded = "global"   one generator shared with everything else in the  *)
(*                       process (what the library must not use; the       *)
(*                       invariant fails for it)                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, PerWorker, Prefetch, Loaders, Seeded

W == 0..(N - 1)
L == 1..Loaders

VARIABLES
    made,    \* made[l][w]: samples produced, not handed out yet
    cnt,     \* cnt[l][w]: number of samples produced
    gen,     \* gen[l][w]: draws taken from the generator of the process
    turn,    \* turn[l]: the worker whose sample is handed out next
    out,     \* out[l]: delivered samples
    glob     \* draws taken from the generator of the main process
vars == <<made, cnt, gen, turn, out, glob>>

Init == /\ made = [l \in L |-> [w \in W |-> <<>>]]
        /\ cnt = [l \in L |-> [w \in W |-> 0]]
        /\ gen = [l \in L |-> [w \in W |-> 0]]
        /\ turn = [l \in L |-> 0]
        /\ out = [l \in L |-> <<>>]
        /\ glob = 0

\* The draw for the next sample of worker w of loader l
Draw(l, w) == CASE Seeded = "index" -> <<w, cnt[l][w]>>
                [] Seeded = "process" -> <<w, gen[l][w]>>
                [] OTHER -> <<0, glob>>

Produce(l, w) ==
    /\ cnt[l][w] < PerWorker
    /\ Len(made[l][w]) < Prefetch
    /\ made' = [made EXCEPT ![l][w] = Append(@, [w |-> w, i |-> cnt[l][w], d |-> Draw(l, w)])]
    /\ cnt' = [cnt EXCEPT ![l][w] = @ + 1]
    /\ gen' = [gen EXCEPT ![l][w] = @ + 1]
    /\ glob' = IF Seeded = "global" THEN glob + 1 ELSE glob
    /\ UNCHANGED <<turn, out>>

HandOut(l) ==
    LET w == turn[l]
    IN /\ made[l][w] # <<>>
       /\ out' = [out EXCEPT ![l] = Append(@, Head(made[l][w]))]
       /\ made' = [made EXCEPT ![l][w] = Tail(@)]
       /\ turn' = [turn EXCEPT ![l] = (w + 1) % N]
       /\ UNCHANGED <<cnt, gen, glob>>

\* Somebody else draws
Noise == glob < 3 /\ glob' = glob + 1 /\ UNCHANGED <<made, cnt, gen, turn, out>>

Next == \/ \E l \in L, w \in W : Produce(l, w)
        \/ \E l \in L : HandOut(l)
        \/ Noise

Spec == Init /\ [][Next]_vars

Expected(k) == [w |-> (k - 1) % N, i |-> (k - 1) \div N, d |-> <<(k - 1) % N, (k - 1) \div N>>]
Same == \A l \in L : \A k \in DOMAIN out[l] : out[l][k] = Expected(k)
=============================================================================
