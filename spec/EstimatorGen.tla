---------------------------- MODULE EstimatorGen ----------------------------
(* Parametrised estimators: parameters, configurations and weights.                                  *)
EXTENDS Num, TLC, Json, IOUtils
R == atoi(IOEnv.VF_R)
GD == atoi(IOEnv.VF_D)
VARIABLES c, done
Rnd(S) == RandomElement(S)
One(d, bs, K, N) == [d |-> d, bs |-> bs, steps |-> <<[op |-> "grad", p |-> [k \in 1..K |-> Rnd(-2..2)],
                      s |-> [n \in 1..N |-> [k \in 1..K |-> Rnd(0..1)]], a |-> [n \in 1..N |-> Rnd(1..3)]]>>]
Init == /\ done = FALSE
        /\ \E d \in 1..GD, K \in 1..3 : \E bs \in {[r \in 1..R |-> Rnd(1..2)]} : c = One(d, bs, K, d * SumSeq(bs))
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
Emit == ~done \/ PrintT("BEH " \o ToJson(c))
=============================================================================
