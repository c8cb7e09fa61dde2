--------------------------- MODULE KeyStreamsGen ---------------------------
(* Two samplers of the same layout: creation with a root key or integer seed, calls, key resets.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
GR == atoi(IOEnv.VF_R)
VARIABLES head, hist, done
vars == <<head, hist, done>>
Rnd(S) == RandomElement(S)
Kinds == {"mckey", "genkey", "flip", "rnn", "orb", "orb2"}
Init == /\ done = FALSE
        /\ \E ver \in 1..6, k \in Kinds : \E d \in {Rnd(1..GD)} :
          /\ head = [kind |-> k, d |-> d, chains |-> Rnd(1..3), sweep |-> IF k = "flip" THEN 60 ELSE Rnd({1, 1, 2}), therm |-> Rnd(0..1)]
          /\ hist = <<[op |-> "new", o |-> 1, root |-> Rnd(1..3), int |-> Rnd({TRUE, FALSE})], [op |-> "new", o |-> 2, root |-> Rnd(1..3), int |-> Rnd({TRUE, FALSE})]>>
MaxLen == IF head.kind \in {"mckey", "genkey"} THEN 13 ELSE 9
Per == CASE head.kind \in {"orb", "orb2"} -> 14 [] head.kind = "flip" -> head.chains [] head.kind = "mckey" -> head.chains * Rnd({1, 2, 3}) [] OTHER -> Rnd({2, 3, 5})
Sample == \E o \in {1, 2} : hist' = Append(hist, [op |-> "sample", o |-> o, n |-> Per * head.d * GR])
Fresh == \E o \in {Rnd(1..2)}, i \in {Rnd({TRUE, FALSE})} : hist' = Append(hist, [op |-> "new", o |-> o, root |-> Rnd(1..3), int |-> i])
Reset == head.kind # "flip" /\ \E o \in {1, 2} : hist' = Append(hist, [op |-> "reset", o |-> o, root |-> Rnd(1..4)])
Next == \/ Len(hist) < MaxLen /\ (Sample \/ IF hist[Len(hist)].op = "sample" THEN Fresh \/ Reset ELSE FALSE) /\ UNCHANGED <<head, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([kind |-> head.kind, h |-> head, steps |-> hist]))
=============================================================================
