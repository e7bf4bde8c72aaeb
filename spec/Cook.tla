-------------------------------- MODULE Cook --------------------------------
(***************************************************************************)
(* The choice of a cooker as the scan which the encoder performs, for all  *)
(* short lists of cookers and samples of a small domain: it ends at the    *)
(* cooker which CookOps names.  The cases are also written for replaying.  *)
(***************************************************************************)
EXTENDS CookOps, SequencesExt, TLC, Json, IOUtils

CONSTANTS MaxCookers, Emit

Subs == {<<>>, <<<<"a", "1">>>>, <<<<"a", "2">>>>, <<<<"a", "1">>, <<"b", "1">>>>, <<<<"b", "None">>>>}
Cookers == [sub : {"", "s", "t"}, has : Subs \ {<<<<"a", "2">>>>}, cond : {<<>>, <<1>>}, all : {TRUE, FALSE}]
Samples == [crude : BOOLEAN, sub : {"s", "t"}, subs : Subs, id : {1, 2}]
Lists == UNION {[1..n -> Cookers] : n \in 0..MaxCookers}




VARIABLES cs, s, j, res
vars == <<cs, s, j, res>>

Init == /\ cs \in Lists /\ s \in Samples /\ j = 0 /\ res = -2
Next == /\ res = -2
        /\ UNCHANGED <<cs, s>>
        /\ IF ~s.crude THEN res' = 0 /\ UNCHANGED j
           ELSE IF j = Len(cs) THEN res' = -1 /\ UNCHANGED j
           ELSE /\ j' = j + 1
                /\ res' = IF Matches(cs[j + 1], s) THEN j + 1 ELSE res
Spec == Init /\ [][Next]_vars
Right == res # -2 => res = Cooker(cs, s)
Alone == res > 0 => \A k \in 1..(res - 1) : ~Matches(cs[k], s)

ASSUME Emit => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cookers)) /\ ndJsonSerialize(IOEnv.OUT2, SetToSeq(Samples))
=============================================================================
