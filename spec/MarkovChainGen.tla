-------------------------- MODULE MarkovChainGen --------------------------
(* Sampling sessions on a small chain of states 0..n-1 with given moduli 2^amp (amp = -1: zero).      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
GR == atoi(IOEnv.VF_R)
GN == atoi(IOEnv.VF_N)     \* steps per session and process
VARIABLES head, hist, done
vars == <<head, hist, done>>
Rnd(S) == RandomElement(S)
Modes == {"walk", "single", "flat"}
\* walk: one chain per device, every step recorded. single: several chains, one step per call. flat: constant modulus, several steps per sweep
Amps(n) == [i \in 1..n |-> Rnd({-1, 0, 1, 1, 2, 2})]
Init == /\ done = FALSE /\ hist = <<>>
        /\ \E ver \in 1..8 : \E mode \in Modes, pr \in {Rnd({"cyc", "fork"})}, d \in {Rnd(1..GD)}, n \in {Rnd(3..4)} :
           \E am \in {Amps(n)}, m \in {Rnd({1, 2, 4, 2, 4, 0})}, st \in {Rnd(1..n)} :
           \E sc \in {IF m = 1 THEN 2 ELSE 1}, zero \in {IF m = 0 THEN 0 ELSE -1} :
           head = [mode |-> mode, prop |-> IF mode = "flat" THEN "cyc" ELSE pr, arg |-> Rnd(1..(n - 1)), n |-> n, d |-> d,
                   amp |-> IF mode = "flat" THEN [i \in 1..n |-> 1]
                           ELSE [i \in 1..n |-> IF i = st THEN sc * Rnd(0..2) ELSE IF am[i] = -1 THEN zero ELSE sc * am[i]],
                   phase |-> [i \in 1..n |-> Rnd(0..3)], mu2 |-> m, kap2 |-> Rnd({1, 2}), start |-> st - 1,
                   chains |-> IF mode = "walk" THEN 1 ELSE Rnd(1..3), sweep |-> IF mode = "flat" THEN Rnd(1..3) ELSE 1,
                   therm |-> IF mode = "flat" THEN Rnd(0..2) ELSE 0, net |-> Rnd({"cpx", "two", "real", "plain"}), seed |-> Rnd(1..1000), off |-> Rnd({0, 1500, -1500, 30000000, -30000000})]
Per == IF head.mode = "walk" THEN Rnd({GN \div 2, GN \div 4}) ELSE IF head.mode = "single" THEN 1 ELSE Rnd(1..4)
MaxLen == IF head.mode = "single" THEN 40 ELSE 4
Sample == hist' = Append(hist, [op |-> "sample", n |-> Per * head.chains * head.d * GR])
SampleP == hist' = Append(hist, [op |-> "sample", n |-> Per * head.chains * head.d * GR, par |-> Rnd(0..2)])
SetP == hist' = Append(hist, [op |-> "set", v |-> Rnd(0..2)])
Next == \/ Len(hist) < MaxLen /\ (Sample \/ Sample \/ SampleP \/ SetP) /\ UNCHANGED <<head, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([kind |-> "chain", h |-> head, steps |-> hist]))
=============================================================================
