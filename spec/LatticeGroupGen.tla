-------------------------- MODULE LatticeGroupGen --------------------------
(* All choices of lattice, symmetries and quantum numbers (exponents of twelfth roots of unity).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
M1 == atoi(IOEnv.VF_M1)
M2 == atoi(IOEnv.VF_M2)
VARIABLES c
Syms == {"translation", "reflection", "rotation", "spinflip"}
Orders == {f \in [1..4 -> Syms] : \A i, j \in 1..4 : i # j => f[i] # f[j]}
TExp(d) == IF d = 1 THEN {0, 2, 3, 4, 6} ELSE {0, 4, 6}
Pick(sy, nm, S) == IF nm \in sy THEN S ELSE {0}
Init == \E d \in {1, 2} : \E L \in 1..(IF d = 1 THEN M1 ELSE M2), sy \in {X \in SUBSET Syms : d = 1 => "rotation" \notin X} :
        \E t \in Pick(sy, "translation", TExp(d)), r \in Pick(sy, "reflection", {0, 6}), o \in Pick(sy, "rotation", {0, 3, 6}), s \in Pick(sy, "spinflip", {0, 6}) :
        c = [dim |-> d, L |-> L, sy |-> sy, ex |-> [t |-> t, r |-> r, o |-> o, s |-> s],
             order |-> SelectSeq((CHOOSE f \in Orders : TRUE), LAMBDA x : x \in sy)]
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("BEH " \o ToJson(c))
=============================================================================
