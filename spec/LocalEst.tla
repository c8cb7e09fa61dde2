------------------------------ MODULE LocalEst ------------------------------
(* Batched computation of local estimators: n samples are processed in batches (with the last one    *)
(* padded), and every network evaluation is itself split into padded network batches. The abstract    *)
(* estimator of sample i is the token Val(i); padding entries carry the token 0.                      *)
EXTENDS Num, TLC
CONSTANTS MaxN, MaxB, MaxNB
Val(i) == i
VARIABLES n, b, nb, eff, k, out, phase
vars == <<n, b, nb, eff, k, out, phase>>
Init == /\ n \in 1..MaxN /\ b \in 1..MaxB /\ nb \in 1..MaxNB
        /\ eff = 0 /\ k = 0 /\ out = [i \in 1..n |-> 0] /\ phase = "plan"
\* the batch size is reduced so that batches are as equal as possible
Plan == /\ phase = "plan"
        /\ eff' = IF n % b > 0 THEN n \div ((n \div b) + 1) ELSE b
        /\ phase' = "full" /\ UNCHANGED <<n, b, nb, k, out>>
\* evaluation of a list through the network, nb entries at a time, padded to full batches and cut again
Padded(s) == s \o [j \in 1..((nb - (Len(s) % nb)) % nb) |-> 0]
NetEval(s) == SubSeq(Flat([m \in 1..(Len(Padded(s)) \div nb) |-> SubSeq(Padded(s), (m - 1) * nb + 1, m * nb)]), 1, Len(s))
Batch(lo, len) == [j \in 1..len |-> Val(lo + j)]
Put(lo, vals) == [i \in 1..n |-> IF i > lo /\ i <= lo + Len(vals) THEN vals[i - lo] ELSE out[i]]
Full == /\ phase = "full" /\ k < n \div eff
        /\ out' = Put(k * eff, NetEval(Batch(k * eff, eff)))
        /\ k' = k + 1 /\ UNCHANGED <<n, b, nb, eff, phase>>
EndFull == phase = "full" /\ k = n \div eff /\ phase' = "rest" /\ UNCHANGED <<n, b, nb, eff, k, out>>
Rest == /\ phase = "rest"
        /\ LET r == n % eff IN
           out' = IF r = 0 THEN out ELSE Put(k * eff, SubSeq(NetEval(Batch(k * eff, r) \o [j \in 1..(eff - r) |-> 0]), 1, r))
        /\ phase' = "done" /\ UNCHANGED <<n, b, nb, eff, k>>
Next == Plan \/ Full \/ EndFull \/ Rest
Spec == Init /\ [][Next]_vars
Complete == phase = "done" => \A i \in 1..n : out[i] = Val(i)
Usable == phase # "plan" => eff >= 1 /\ eff <= b
NoPaddingLeaks == \A i \in 1..n : out[i] \in {0, Val(i)}
=============================================================================
