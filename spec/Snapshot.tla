------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* Why saved states have to be copies.  A loader owns a mutable buffer     *)
(* (the shuffle buffer, an incomplete batch, lists of positions) which it  *)
(* changes in place; heap objects are shared by reference.  Saving stores  *)
(* a reference to an object in the state, restoring makes the loader use   *)
(* the object of the state - unless they copy.                             *)
(*                                                                         *)
(* Stream: the source yields 1, 2, 3, ...; the buffer holds up to Buf of   *)
(* them; always the oldest one is delivered, so sample k is delivered at   *)
(* step k, whatever is saved or restored in between.                       *)
(* CopyOnSave = FALSE or CopyOnRestore = FALSE violates the invariants.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Loaders, Buf, MaxPos, MaxStates, CopyOnSave, CopyOnRestore

L == 1..Loaders
Addr == 1..(Loaders * (1 + MaxStates) + MaxStates)

VARIABLES
    heap,   \* heap[a]: contents of the object at a
    used,   \* addresses in use
    obj,    \* obj[l]: the buffer object of loader l
    src,    \* src[l]: next number of the source of loader l
    n,      \* n[l]: number of delivered samples
    ok,     \* all deliveries were right so far
    st      \* saved states: [a, src, n, then: contents when saved]
vars == <<heap, used, obj, src, n, ok, st>>

Fresh == CHOOSE a \in Addr : a \notin used

Init == /\ heap = [a \in Addr |-> <<>>]
        /\ used = L
        /\ obj = [l \in L |-> l]
        /\ src = [l \in L |-> 1]
        /\ n = [l \in L |-> 0]
        /\ ok = TRUE
        /\ st = <<>>

Fill(l) == /\ Len(heap[obj[l]]) < Buf
           /\ heap' = [heap EXCEPT ![obj[l]] = Append(@, src[l])]
           /\ src' = [src EXCEPT ![l] = @ + 1]
           /\ UNCHANGED <<used, obj, n, ok, st>>

Yield(l) == /\ Len(heap[obj[l]]) = Buf
            /\ n[l] < MaxPos
            /\ ok' = (ok /\ Head(heap[obj[l]]) = n[l] + 1)
            /\ n' = [n EXCEPT ![l] = @ + 1]
            /\ heap' = [heap EXCEPT ![obj[l]] = Tail(@)]
            /\ UNCHANGED <<used, obj, src, st>>

Save(l) == /\ Len(st) < MaxStates
           /\ IF CopyOnSave
              THEN LET a == Fresh
                   IN /\ heap' = [heap EXCEPT ![a] = heap[obj[l]]]
                      /\ used' = used \cup {a}
                      /\ st' = Append(st, [a |-> a, src |-> src[l], n |-> n[l], then |-> heap[obj[l]]])
              ELSE /\ st' = Append(st, [a |-> obj[l], src |-> src[l], n |-> n[l], then |-> heap[obj[l]]])
                   /\ UNCHANGED <<heap, used>>
           /\ UNCHANGED <<obj, src, n, ok>>

\* A new loader in the place of l. Its old buffer is dropped if nothing else refers to it.
Restore(l, k) ==
    LET old == obj[l]
        keep == {obj[x] : x \in L \ {l}} \cup {st[j].a : j \in DOMAIN st}
    IN /\ IF CopyOnRestore
          THEN LET free == (used \ {old}) \cup keep
                   a == CHOOSE a \in Addr : a \notin free
               IN /\ heap' = [heap EXCEPT ![a] = heap[st[k].a]]
                  /\ used' = free \cup {a}
                  /\ obj' = [obj EXCEPT ![l] = a]
          ELSE /\ obj' = [obj EXCEPT ![l] = st[k].a]
               /\ UNCHANGED <<heap, used>>
       /\ src' = [src EXCEPT ![l] = st[k].src]
       /\ n' = [n EXCEPT ![l] = st[k].n]
       /\ UNCHANGED <<ok, st>>

Next == \/ \E l \in L : Fill(l) \/ Yield(l) \/ Save(l)
        \/ \E l \in L, k \in DOMAIN st : Restore(l, k)

Spec == Init /\ [][Next]_vars

\* A saved state never changes
Immutable == \A k \in DOMAIN st : heap[st[k].a] = st[k].then
\* Every loader delivers the stream from where it started
Faithful == ok
=============================================================================
