------------------------------ MODULE RankState -----------------------------
(***************************************************************************)
(* Ranks save and restore a global state together.  The ranks are divided  *)
(* into data parallel groups; every group saves to one of its ranks or to  *)
(* all of them (0), the state is carried to where it is needed, and        *)
(* restored from one of its ranks or from a copy on all of them (0).       *)
(* Messages between two ranks keep their order; ranks arrive in any order  *)
(* and those which only send go on at once, also to the next call.         *)
(* Nobody gets stuck, and every rank has its own state in the end.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

CONSTANTS MaxRanks, Rounds, Emit

VARIABLES world, st, at, chan, got, carried, res
vars == <<world, st, at, chan, got, carried, res>>

Partitions(S) ==
    LET Maps == [S -> S]
        Blocks(f) == {{x \in S : f[x] = f[y]} : y \in S}
    IN {Blocks(f) : f \in Maps}

\* A plan: where every group saves to and restores from
Plans(W) == UNION {{[W |-> W, groups |-> P, dst |-> d, src |-> s] :
                       d \in {f \in [P -> 0..W] : \A g \in P : f[g] = 0 \/ f[g] \in g},
                       s \in {f \in [P -> 0..W] : \A g \in P : f[g] = 0 \/ f[g] \in g}} : P \in Partitions(1..W)}
Worlds == UNION {Plans(W) : W \in 1..MaxRanks}

ASSUME Emit => ndJsonSerialize(IOEnv.OUT, SetToSeq({[W |-> w.W, groups |-> SetToSeq({[ranks |-> SetToSeq(g), dst |-> w.dst[g], src |-> w.src[g]] : g \in w.groups})] : w \in Worlds}))

R == 1..world.W
G(r) == CHOOSE g \in world.groups : r \in g
Dst(r) == world.dst[G(r)]
Src(r) == world.src[G(r)]
None == 0

Init == /\ world = [W |-> 0] /\ st = <<>> /\ at = <<>> /\ chan = <<>> /\ got = <<>> /\ carried = <<>> /\ res = <<>>

Pick == /\ world.W = 0
        /\ \E w \in Worlds :
             /\ world' = w
             \* distinct states, some ranks have none
             /\ \E none \in SUBSET (1..w.W) : st' = [r \in 1..w.W |-> IF r \in none THEN None ELSE r]
             /\ at' = [r \in 1..w.W |-> <<1, "save">>]
             /\ chan' = [p \in (1..w.W) \X (1..w.W) |-> <<>>]
             /\ got' = [r \in 1..w.W |-> <<>>]
             /\ carried' = [g \in w.groups |-> <<>>]
             /\ res' = [r \in 1..w.W |-> <<>>]

\* Ranks which get the states of the group
Receivers(r) == IF Dst(r) = 0 THEN G(r) ELSE {Dst(r)}

Send(r) ==
    /\ world.W > 0 /\ at[r][2] = "save"
    /\ chan' = [p \in DOMAIN chan |-> IF p[1] = r /\ p[2] \in Receivers(r) THEN Append(chan[p], st[r]) ELSE chan[p]]
    /\ at' = [at EXCEPT ![r] = <<@[1], IF r \in Receivers(r) THEN "wait" ELSE "saved">>]
    /\ UNCHANGED <<world, st, got, carried, res>>

Gather(r) ==
    /\ world.W > 0 /\ at[r][2] = "wait" /\ \A q \in G(r) : chan[<<q, r>>] # <<>>
    /\ got' = [got EXCEPT ![r] = [q \in G(r) |-> Head(chan[<<q, r>>])]]
    /\ chan' = [p \in DOMAIN chan |-> IF p[2] = r /\ p[1] \in G(r) THEN Tail(chan[p]) ELSE chan[p]]
    /\ at' = [at EXCEPT ![r] = <<@[1], "saved">>]
    /\ carried' = [carried EXCEPT ![G(r)] = [q \in G(r) |-> Head(chan[<<q, r>>])]]
    /\ UNCHANGED <<world, st, res>>

\* The state was carried to where it is restored from; a rank which has it (or needs none) starts
Fresh(r) == carried[G(r)] # <<>> /\ \A q \in G(r) : at[q][2] = "saved" \/ at[q][1] > at[r][1] \/ at[q][2] \in {"fetch", "done"}
Begin(r) ==
    /\ world.W > 0 /\ at[r][2] = "saved" /\ Fresh(r)
    /\ IF Src(r) = 0 THEN /\ res' = [res EXCEPT ![r] = Append(@, carried[G(r)][r])]
                          /\ at' = [at EXCEPT ![r] = <<@[1], "done">>] /\ UNCHANGED chan
       ELSE /\ UNCHANGED res /\ at' = [at EXCEPT ![r] = <<@[1], "fetch">>]
            /\ chan' = IF r # Src(r) THEN chan
                       ELSE [p \in DOMAIN chan |-> IF p[1] = r /\ p[2] \in G(r) THEN Append(chan[p], carried[G(r)][p[2]]) ELSE chan[p]]
    /\ UNCHANGED <<world, st, got, carried>>

Fetch(r) ==
    /\ world.W > 0 /\ at[r][2] = "fetch" /\ chan[<<Src(r), r>>] # <<>>
    /\ res' = [res EXCEPT ![r] = Append(@, Head(chan[<<Src(r), r>>]))]
    /\ chan' = [chan EXCEPT ![<<Src(r), r>>] = Tail(@)]
    /\ at' = [at EXCEPT ![r] = <<@[1], "done">>]
    /\ UNCHANGED <<world, st, got, carried>>

\* The next round with a new state, nobody of the group is still in the last one's save
Again(r) ==
    /\ world.W > 0 /\ at[r][2] = "done" /\ at[r][1] < Rounds
    /\ \A q \in G(r) : at[q][2] # "saved" \/ at[q][1] > at[r][1]
    /\ at' = [at EXCEPT ![r] = <<@[1] + 1, "save">>]
    /\ st' = [st EXCEPT ![r] = IF @ = None THEN None ELSE @ + 10]
    /\ carried' = IF \A q \in G(r) : at[q][1] = at[r][1] THEN [carried EXCEPT ![G(r)] = <<>>] ELSE carried
    /\ UNCHANGED <<world, chan, got, res>>

Next == Pick \/ \E r \in 1..MaxRanks : (world.W >= r /\ (Send(r) \/ Gather(r) \/ Begin(r) \/ Fetch(r) \/ Again(r)))
Finished == world.W > 0 /\ \A r \in R : at[r] = <<Rounds, "done">>
Stop == Finished /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars

Value(r, k) == IF st[r] = None THEN None ELSE r + 10 * (k - 1)
Own == world.W > 0 => \A r \in R : \A k \in 1..Len(res[r]) : res[r][k] = Value(r, k)
OnlyDst == world.W > 0 => \A r \in R : r \notin Receivers(r) => got[r] = <<>>
Whole == world.W > 0 => \A r \in R : got[r] # <<>> => DOMAIN got[r] = G(r) /\ \A q \in G(r) : \E k \in 1..Rounds : got[r][q] = Value(q, k)
NothingLeft == Finished => \A p \in DOMAIN chan : chan[p] = <<>>
=============================================================================
