------------------------------ MODULE RngFrames -----------------------------
(***************************************************************************)
(* The random generators of a process and functions with own seeds.        *)
(*                                                                         *)
(* cur is the state of the generators: a draw returns it and moves on.     *)
(* A call of a seeded function saves the state, seeds from its key and     *)
(* gives the saved state back however it ends.  A generator keeps its own  *)
(* state while it is suspended; every step gets the state of its caller    *)
(* out of the way and back.  Calls nest, generators may be stepped from    *)
(* anywhere which is not itself, left alone or used up.                    *)
(*   stack    running frames, innermost last                               *)
(*   gens     the generators: state while suspended                        *)
(*   draws    what each frame (0: the process itself) has drawn            *)
(*   h        the actions so far, as a program for the real code           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxLen, MaxDepth, Emit

VARIABLES cur, stack, gens, draws, keys, next, h
vars == <<cur, stack, gens, draws, keys, next, h>>

Outer == <<"outer">>
Seeded(k) == <<"key", k>>
Foreign(j) == <<"foreign", j>>
Start(o) == [of |-> o, n |-> 0]
NoGen == [st |-> "none", frame |-> 0, rng |-> Start(Outer)]

Init == /\ cur = Start(Outer)
        /\ stack = <<>>
        /\ gens = [g \in {"G", "H"} |-> NoGen]
        /\ draws = <<>>
        /\ keys = <<>>
        /\ next = 1
        /\ h = ""

Top == stack[Len(stack)]
Owner == IF stack = <<>> THEN 0 ELSE Top.frame
Pop == SubSeq(stack, 1, Len(stack) - 1)

Draw == /\ draws' = Append(draws, [o |-> Owner, of |-> cur.of, n |-> cur.n])
        /\ cur' = [cur EXCEPT !.n = @ + 1]
        /\ h' = h \o "D"
        /\ UNCHANGED <<stack, gens, keys, next>>

\* User code which seeds the generators itself
Reseed == /\ stack # <<>>
          /\ cur' = Start(Foreign(Len(h)))
          /\ keys' = [keys EXCEPT ![Owner] = 0]
          /\ h' = h \o "Z"
          /\ UNCHANGED <<stack, gens, draws, next>>

Call == /\ Len(stack) < MaxDepth
        /\ stack' = Append(stack, [kind |-> "plain", frame |-> next, saved |-> cur, g |-> ""])
        /\ cur' = Start(Seeded(next))
        /\ keys' = Append(keys, next)
        /\ next' = next + 1
        /\ h' = h \o "C"
        /\ UNCHANGED <<gens, draws>>

Leave(how) == /\ stack # <<>> /\ Top.kind = "plain"
              /\ cur' = Top.saved
              /\ stack' = Pop
              /\ h' = h \o how
              /\ UNCHANGED <<gens, draws, keys, next>>

\* A fresh generator takes its key at its first step
StepGen(g) ==
    /\ Len(stack) < MaxDepth
    /\ gens[g].st # "run"
    /\ h' = h \o g
    /\ UNCHANGED draws
    /\ IF gens[g].st = "none"
       THEN /\ stack' = Append(stack, [kind |-> "gen", frame |-> next, saved |-> cur, g |-> g])
            /\ gens' = [gens EXCEPT ![g] = [st |-> "run", frame |-> next, rng |-> Start(Outer)]]
            /\ cur' = Start(Seeded(next))
            /\ keys' = Append(keys, next)
            /\ next' = next + 1
       ELSE /\ stack' = Append(stack, [kind |-> "gen", frame |-> gens[g].frame, saved |-> cur, g |-> g])
            /\ gens' = [gens EXCEPT ![g].st = "run"]
            /\ cur' = gens[g].rng
            /\ UNCHANGED <<keys, next>>

Yield == /\ stack # <<>> /\ Top.kind = "gen"
         /\ gens' = [gens EXCEPT ![Top.g] = [@ EXCEPT !.st = "susp", !.rng = cur]]
         /\ cur' = Top.saved
         /\ stack' = Pop
         /\ h' = h \o "Y"
         /\ UNCHANGED <<draws, keys, next>>

End(how) == /\ stack # <<>> /\ Top.kind = "gen"
            /\ gens' = [gens EXCEPT ![Top.g] = NoGen]
            /\ cur' = Top.saved
            /\ stack' = Pop
            /\ h' = h \o how
            /\ UNCHANGED <<draws, keys, next>>

\* A suspended generator is dropped
Close(g) == /\ gens[g].st = "susp"
            /\ gens' = [gens EXCEPT ![g] = NoGen]
            /\ h' = h \o (IF g = "G" THEN "g" ELSE "h")
            /\ UNCHANGED <<cur, stack, draws, keys, next>>

Next == /\ Len(h) < MaxLen
        /\ \/ Draw \/ Reseed \/ Call \/ Yield
           \/ \E x \in {"R", "X"} : Leave(x) \/ End(x)
           \/ \E g \in {"G", "H"} : StepGen(g) \/ Close(g)
        /\ (Emit /\ Len(h') = MaxLen => PrintT("PROGRAM " \o h'))

Spec == Init /\ [][Next]_vars

Of(o) == SelectSeq(draws, LAMBDA d : d.o = o)
\* Every frame sees the numbers of its key from the first on, the process its own as if alone
OwnNumbers ==
    \A o \in {0} \cup {k \in 1..(next - 1) : keys[k] # 0} :
        LET d == Of(o)
        IN \A j \in 1..Len(d) :
            /\ d[j].n = j - 1
            /\ d[j].of = IF o = 0 THEN Outer ELSE Seeded(o)
NoTrace == stack = <<>> => cur = [of |-> Outer, n |-> Len(Of(0))]
=============================================================================
