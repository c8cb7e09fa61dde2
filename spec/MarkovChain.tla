---------------------------- MODULE MarkovChain ----------------------------
(* Metropolis chains on configurations: proposers as multisets of outcomes, acceptance by the ratio   *)
(* of the moduli to the power mu, the counters of a sampling call, and the chain's continuation.      *)
(* The modulus of a configuration is 2^amp, amp = -1 standing for a vanishing one.                    *)
EXTENDS Num, TLC
\* ---- the supplied proposers: out of Total(..) equally likely outcomes Mult(.., s, t) lead from s to t
Flip(s) == [i \in 1..Len(s) |-> 1 - s[i]]
Total(p, n) == CASE p = "spin_flip" -> n [] p = "POVM" -> 3 * n [] p = "spin_flip_Z2" -> 5 * n [] p = "zeroMag" -> 5 * (n \div 2) * (n \div 2)
B2I(b) == IF b THEN 1 ELSE 0
Diff(s, t) == {i \in 1..Len(s) : s[i] # t[i]}
OneFlip(s, t) == B2I(Cardinality(Diff(s, t)) = 1 /\ \A i \in 1..Len(s) : t[i] \in 0..1)
Exchange(s, t) == B2I(Cardinality(Diff(s, t)) = 2 /\ Cardinality({i \in Diff(s, t) : s[i] = 1 /\ t[i] = 0}) = 1
                      /\ Cardinality({i \in Diff(s, t) : s[i] = 0 /\ t[i] = 1}) = 1)
Mult(p, s, t) == CASE p = "spin_flip" -> OneFlip(s, t)
                   [] p = "POVM" -> B2I(Cardinality(Diff(s, t)) = 1 /\ \A i \in 1..Len(s) : t[i] \in 0..3)
                   [] p = "spin_flip_Z2" -> 4 * OneFlip(s, t) + OneFlip(s, Flip(t))
                   [] p = "zeroMag" -> 4 * Exchange(s, t) + Exchange(s, Flip(t))
Values(p) == IF p = "POVM" THEN 0..3 ELSE 0..1
InSector(p, s) == p = "zeroMag" => 2 * SumSeq(s) = Len(s)

\* ---- acceptance: with modulus 2^x and mu in halves (mu2 = 2 mu), probability 2^(mu (y - x)) capped by one, as <<num, den>>
Acc(x, y, mu2) == IF y < 0 THEN <<0, 1>> ELSE IF mu2 * (y - x) >= 0 THEN <<1, 1>> ELSE <<1, Pow(2, (mu2 * (x - y)) \div 2)>>

\* ---- design model
CONSTANTS MaxN, Props, Mu2s, Coefs, MaxSteps, MaxCalls
VARIABLES prop, cur, amp, mu2, prop_, acc_, call, kept, moved
vars == <<prop, cur, amp, mu2, prop_, acc_, call, kept, moved>>
Cfgs(p, n) == {c \in [1..n -> Values(p)] : InSector(p, c)}
\* a family of amplitude tables
A(co, c) == LET h == SumSeq([i \in 1..Len(c) |-> co[i] * c[i]]) IN (h % 4) - 1
Init == /\ prop \in Props
        /\ \E n \in 2..MaxN : (prop = "zeroMag" => n % 2 = 0) /\ cur \in Cfgs(prop, n) /\ amp \in [1..n -> Coefs]
        /\ A(amp, cur) >= 0 /\ mu2 \in Mu2s
        /\ prop_ = 0 /\ acc_ = 0 /\ call = 1 /\ kept = TRUE /\ moved = 0
Propose(t) == Mult(prop, cur, t) > 0
Accept == \E t \in Cfgs(prop, Len(cur)) : Propose(t) /\ Acc(A(amp, cur), A(amp, t), mu2)[1] > 0
          /\ cur' = t /\ prop_' = prop_ + 1 /\ acc_' = acc_ + 1 /\ moved' = moved + 1
Reject == \E t \in Cfgs(prop, Len(cur)) : Propose(t) /\ Acc(A(amp, cur), A(amp, t), mu2) # <<1, 1>>
          /\ cur' = cur /\ prop_' = prop_ + 1 /\ acc_' = acc_ /\ moved' = moved
NewCall == call < MaxCalls /\ prop_ > 0 /\ call' = call + 1 /\ prop_' = 0 /\ acc_' = 0 /\ cur' = cur /\ kept' = (cur' = cur) /\ moved' = 0
           /\ UNCHANGED <<prop, amp, mu2>>
Next == \/ prop_ < MaxSteps /\ (Accept \/ Reject) /\ UNCHANGED <<prop, amp, mu2, call, kept>>
        \/ NewCall
Spec == Init /\ [][Next]_vars
NeverZero == A(amp, cur) >= 0
Sector == InSector(prop, cur) /\ \A i \in 1..Len(cur) : cur[i] \in Values(prop)
Counters == acc_ = moved /\ acc_ <= prop_
Continues == kept
Fresh == prop_ = 0 /\ call = 1
\* every outcome of a proposer is counted, and the proposer is symmetric
Weight(c) == IF A(amp, c) < 0 THEN 0 ELSE Pow(2, (mu2 * A(amp, c)) \div 2)
Complete == Fresh => SumSeq([k \in 1..1 |-> SumTo([q \in 0..5 |-> q * Cardinality({t \in Cfgs(prop, Len(cur)) : Mult(prop, cur, t) = q})], 5)]) = Total(prop, Len(cur))
Balance == Fresh => \A t \in Cfgs(prop, Len(cur)) :
    LET f == Acc(A(amp, cur), A(amp, t), mu2) b == Acc(A(amp, t), A(amp, cur), mu2) IN
    A(amp, t) >= 0 => Weight(cur) * Mult(prop, cur, t) * f[1] * b[2] = Weight(t) * Mult(prop, t, cur) * b[1] * f[2]
=============================================================================
