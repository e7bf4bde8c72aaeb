------------------------------ MODULE Collate -------------------------------
(***************************************************************************)
(* All batches of a few small tensors.  They are poured one by one into    *)
(* zeros of the largest shape; this yields the padded stack, from which    *)
(* every tensor can be recovered.  The batches are written for replay.     *)
(***************************************************************************)
EXTENDS CollateOps, SequencesExt, Json, IOUtils

CONSTANTS Emit, MaxLen, MaxDim

Shapes(n) == [1..n -> 0..2]
Ten(s, d, j) == [k |-> "t", d |-> d, s |-> s, v |-> TLCEval([q \in 1..Prod(s) |-> IF d = "bool" THEN 2 ELSE IF d = "int" THEN 2 * (10 * j + q) ELSE 20 * j + 2 * q + 1])]
Dts == {"int", "float", "bool"}
Batches == UNION {UNION {{[j \in 1..m |-> Ten(x[j], (IF mix /\ j = m THEN "float" ELSE "int"), j)] : x \in [1..m -> Shapes(n)], mix \in BOOLEAN} : n \in 0..MaxDim} : m \in 1..MaxLen}
Seq0 == TLCEval(SetToSeq(Batches))

VARIABLES s, B, j, out, pc
vars == <<s, B, j, out, pc>>
Shape == [a \in 1..Len(B[1].s) |-> Max({B[n].s[a] : n \in 1..Len(B)})]
Init == s \in 1..Len(Seq0) /\ B = <<>> /\ j = 0 /\ out = <<>> /\ pc = "pick"
Pick == pc = "pick" /\ pc' = "zeros" /\ B' = TLCEval(Seq0[s]) /\ UNCHANGED <<s, j, out>>
Zeros == /\ pc = "zeros" /\ pc' = "pour"
         /\ out' = [n \in 1..Len(B) |-> [q \in 1..Prod(Shape) |-> 0]]
         /\ UNCHANGED <<s, B, j>>
Pour == /\ pc = "pour" /\ j < Len(B)
        /\ j' = j + 1
        /\ out' = [out EXCEPT ![j + 1] = [q \in 1..Prod(Shape) |->
                      IF \E r \in 1..Prod(B[j + 1].s) : Places(B[j + 1].s, r - 1) = Places(Shape, q - 1)
                      THEN B[j + 1].v[CHOOSE r \in 1..Prod(B[j + 1].s) : Places(B[j + 1].s, r - 1) = Places(Shape, q - 1)] ELSE @[q]]]
        /\ UNCHANGED <<s, B, pc>>
Next == Pick \/ Zeros \/ Pour
Spec == Init /\ [][Next]_vars

RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Join(Tail(l))
Agree == (pc = "pour" /\ j = Len(B)) =>
    LET p == TLCEval(Pad(B)) IN
    /\ p.v = Join(out) /\ p.s = <<Len(B)>> \o Shape
    /\ \A n \in 1..Len(B) : \A q \in 1..Prod(B[n].s) :
          p.v[Number(p.s, <<n - 1>> \o Places(B[n].s, q - 1)) + 1] = B[n].v[q]
    /\ ((\A n \in 1..Len(B) : B[n].s = Shape) => Stack(B) = p)
ASSUME Emit => ndJsonSerialize(IOEnv.OUT, SetToSeq({[l |-> b] : b \in Batches}))
=============================================================================
