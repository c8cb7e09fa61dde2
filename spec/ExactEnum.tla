----------------------------- MODULE ExactEnum -----------------------------
(* Enumeration of all L^N basis states over R processes with D devices each, and the weights a call  *)
(* attaches to them. The abstract ansatz has integer parameters th (one per site, a phase part and a *)
(* common shift); the weight of a state is 2^E(state) up to the shift, which must cancel.            *)
EXTENDS Num, TLC

CONSTANTS Ls, Ns, MaxR, MaxD, ThVals

Configs(L, n) == [1..n -> 0..(L - 1)]
RECURSIVE EnergyTo(_, _, _)
EnergyTo(th, s, n) == IF n = 0 THEN 0 ELSE th[n] * s[n] + EnergyTo(th, s, n - 1)
Energy(th, s) == EnergyTo(th, s, Len(th))

\* smallest energy, so that weights are integers
MinE(th, L) == SumSeq([i \in 1..Len(th) |-> IF th[i] < 0 THEN th[i] * (L - 1) ELSE 0])
W(th, L, s) == Pow(2, Energy(th, s) - MinE(th, L))
RECURSIVE SumSet(_, _, _)
SumSet(th, L, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN W(th, L, x) + SumSet(th, L, S \ {x})
Z(th, L) == SumSet(th, L, Configs(L, Len(th)))

\* ---- splitting of the index range 0 .. L^N - 1
Share(T, R, r) == T \div R + (IF r < T % R THEN 1 ELSE 0)
First(T, R, r) == r * (T \div R) + MinI(r, T % R)
Chunk(T, R, D, r) == CeilDiv(Share(T, R, r), D)
SlotIndex(T, R, D, r, d, k) == First(T, R, r) + d * Chunk(T, R, D, r) + k
SlotLive(T, R, D, r, d, k) == d * Chunk(T, R, D, r) + k < Share(T, R, r)
Digits(i, L, n) == [j \in 1..n |-> (i \div Pow(L, j - 1)) % L]

ThSmall == {-1, 2}

VARIABLES L, n, R, D, th, out, res
vars == <<L, n, R, D, th, out, res>>

Init == /\ L \in Ls /\ n \in Ns /\ R \in 1..MaxR /\ D \in 1..MaxD
        /\ th \in [1..n -> ThVals]
        /\ out = {} /\ res = {}

Slots(r) == {<<r, d, k>> : d \in 0..(D - 1), k \in 0..(Chunk(Pow(L, n), R, D, r) - 1)}

\* a process enumerates its slots; padding slots repeat states but are dead
Enumerate(r) ==
    /\ r \notin out
    /\ out' = out \cup {r}
    /\ res' = res \cup {[slot |-> x, live |-> SlotLive(Pow(L, n), R, D, x[1], x[2], x[3]),
                         s |-> Digits(SlotIndex(Pow(L, n), R, D, x[1], x[2], x[3]), L, n)] : x \in Slots(r)}
    /\ UNCHANGED <<L, n, R, D, th>>

\* a new call, possibly with other parameters, starts from the same enumeration
Again == /\ out = 0..(R - 1)
         /\ out' = {} /\ res' = {}
         /\ \E v \in ThVals : th' = [th EXCEPT ![1] = v]
         /\ UNCHANGED <<L, n, R, D>>

Next == (\E r \in 0..(MaxR - 1) : r < R /\ Enumerate(r)) \/ Again
Spec == Init /\ [][Next]_vars

Complete == out = 0..(R - 1)
OnceInv == Complete => \A s \in Configs(L, n) : Cardinality({x \in res : x.live /\ x.s = s}) = 1
LegalInv == \A x \in res : x.s \in Configs(L, n)
NormInv == Complete => Z(th, L) > 0
=============================================================================
