-------------------------- MODULE SampleBudgetGen --------------------------
(* Random sessions for replay: layout, chains, kind of sampler and a history of requests.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GR == atoi(IOEnv.VF_R)
GD == atoi(IOEnv.VF_D)
VARIABLES kind, chains, d, init, hist, done
Kinds == {"mcmc", "gen"}
Init == /\ kind \in Kinds /\ chains \in 1..4 /\ d \in 1..GD /\ init \in {4, 7, 12} /\ hist = <<>> /\ done = FALSE
MaxLen == 4
SetDef == /\ Len(hist) < MaxLen - 1
          /\ \E n \in {1, 5, 9, 16} : hist' = Append(hist, [op |-> "setN", n |-> n, m |-> 1])
ReqDef == /\ Len(hist) < MaxLen
          /\ \E m \in {1, 2, 3, 5} : hist' = Append(hist, [op |-> "sample", n |-> 0, m |-> m])
Req == /\ Len(hist) < MaxLen
       /\ \E n \in 1..24, m \in {1, 2, 3, 4, 5} : hist' = Append(hist, [op |-> "sample", n |-> n, m |-> m])
Step == (SetDef \/ ReqDef \/ Req) /\ UNCHANGED <<kind, chains, d, init, done>>
Stop == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, chains, d, init, hist>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_<<kind, chains, d, init, hist, done>>
Emit == ~done \/ PrintT("BEH " \o ToJson([kind |-> kind, chains |-> chains, d |-> d, init |-> init, steps |-> hist]))
=============================================================================
