--------------------------- MODULE ParamCodecGen ---------------------------
(* Histories of reads, writes, updates, evaluations and gradients of one variational state.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
GM == IOEnv.VF_MODE   \* "codec" or "grad"
VARIABLES head, hist, done
vars == <<head, hist, done>>
Rnd(S) == RandomElement(S)
Kinds == {"real", "realout", "holo", "nonholo", "two"}
Shapes == {<<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 1, 2>>, <<>>}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Tot(_)
Tot(ls) == IF ls = <<>> THEN 0 ELSE Prod(Head(ls).shape) + Tot(Tail(ls))
Names == <<"b", "a", "W", "kernel", "z", "B">>
\* leaves in order of creation; "sub" says in which (sub)module a leaf lives
Leaves(p, sh, su, n) == [i \in 1..n |-> [name |-> Names[p[i]], shape |-> sh[i], sub |-> su[i]]]
Inj == {f \in [1..3 -> 1..6] : \A i, j \in 1..3 : i # j => f[i] # f[j]}
RSh(u) == [i \in 1..3 |-> Rnd(Shapes)]
RSu(u) == [i \in 1..3 |-> Rnd({"", "Q_sub", "c_sub"})]
Cpx(k) == k \in {"holo", "nonholo"}
Cfg(n) == [i \in 1..n |-> Rnd({0, 1})]
Ints(n) == [i \in 1..n |-> Rnd(-3..3)]
Fine(n) == [i \in 1..n |-> <<Rnd(-3..3), Rnd(-1000000..1000000)>>]
Zero(n) == [i \in 1..n |-> 0]
N == Tot(head.leaves) + Tot(head.leaves2)
P == IF Cpx(head.kind) THEN 2 * N ELSE N
Cfgs(per) == [i \in 1..(per * head.d) |-> Cfg(head.L)]
Init == /\ done = FALSE /\ hist = <<>>
        /\ \E ver \in 1..6 : \E p1 \in {Rnd(Inj)}, sh1 \in {RSh(1)}, su1 \in {RSu(1)}, p2 \in {Rnd(Inj)}, sh2 \in {RSh(2)}, su2 \in {RSu(2)}, m1 \in {Rnd(1..3)}, m2 \in {Rnd(1..2)} :
           \E k \in Kinds, l1 \in {Leaves(p1, sh1, su1, m1)}, l2 \in {Leaves(p2, sh2, su2, m2)}, L \in {Rnd(2..4)}, d \in 1..GD, z \in {Rnd(1..3)} :
           head = [kind |-> k, leaves |-> l1, leaves2 |-> IF k = "two" THEN l2 ELSE <<>>, L |-> L, d |-> d,
                   batch |-> Rnd({1, 2, 3, 7}), seed |-> Rnd(1..1000), aux |-> Rnd({TRUE, FALSE, FALSE}),
                   first |-> IF z = 1 THEN Zero(L) ELSE Cfg(L), firstop |-> Rnd({"eval", "grad"}), log |-> Rnd(1..3) # 1]
MaxLen == IF GM = "codec" THEN 11 ELSE 8
Op(e) == hist' = Append(hist, e)
Saved == \E i \in 1..Len(hist) : hist[i].op = "save"
Codec == \/ Op([op |-> "set", v |-> Ints(P), np |-> Rnd({TRUE, FALSE})])
         \/ Op([op |-> "upd", v |-> Ints(P)])
         \/ Op([op |-> "settree", re |-> Ints(N), im |-> IF Cpx(head.kind) THEN Ints(N) ELSE Zero(N), frozen |-> Rnd({TRUE, FALSE})])
         \/ Op([op |-> "wb"])
         \* full precision: pairs <<a, b>> stand for a + b / 2^48
         \/ GM = "codec" /\ Op([op |-> "fine", v |-> Fine(P), w |-> Fine(P)])
         \/ Op([op |-> "save"])
         \/ Saved /\ Op([op |-> "restore"])
Eval == Op([op |-> "eval", cfgs |-> Cfgs(Rnd(1..4))])
Grad == Op([op |-> "grad", cfgs |-> Cfgs(Rnd(1..4))])
GDict == head.kind # "nonholo" /\ Op([op |-> "gdict", cfgs |-> Cfgs(Rnd(1..3))])
Step == IF Len(hist) = 0 THEN Op([op |-> "probe"])
        ELSE IF GM = "codec" THEN Codec \/ Eval
        ELSE IF hist[Len(hist)].op \in {"grad", "gdict", "probe"} THEN Codec ELSE Grad \/ GDict
Next == \/ Len(hist) < MaxLen /\ Step /\ UNCHANGED <<head, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([h |-> head, n |-> N, p |-> P, n1 |-> Tot(head.leaves), steps |-> hist]))
=============================================================================
