---------------------------- MODULE PovmTermsGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
VARIABLES geom, d, descs, hist, done
vars == <<geom, d, descs, hist, done>>
Rnd(S) == RandomElement(S)
Geoms == {<<2>>, <<3>>, <<4>>, <<2, 2>>, <<10, 14>>}
Far == {1, 2, 127, 128, 129, 130, 131, 139, 140}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
NS(g) == Prod(g)
Perms(n) == IF n > 6 THEN {p \in [1..3 -> Far] : \A i, j \in 1..3 : i # j => p[i] # p[j]} ELSE {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Names == <<"A1", "A2", "B1", "B2", "C1">>
Size(nm) == CASE nm \in {"A1", "A2"} -> 1 [] nm \in {"B1", "B2"} -> 2 [] OTHER -> 3
Kinds == {"unitary", "dissipator", "imaginary"}
PQR(u) == <<Rnd(1..4), Rnd(1..4), Rnd(0..4)>>
Taken == <<"A1", "B1", "C1", "X", "ZZ", "decayup", "dephasing">>
\* term descriptions: names with tuples that are prefixes of few permutations, so that leading sites are shared
Desc(nm, p) == [name |-> nm, sites |-> SubSeq(p, 1, Size(nm)), w |-> Rnd({-2, -1, 1, 2, 3})]
Usable(n, big) == {nm \in {Names[i] : i \in 1..5} : Size(nm) <= n /\ (IF Size(nm) = 3 THEN big ELSE TRUE)}
Init == /\ done = FALSE /\ d \in 1..GD
        /\ \E ver \in 1..4 : geom \in Geoms
        \* every second family of terms has one on three sites (if there are as many) besides smaller ones
        /\ \E big \in {TRUE, FALSE} : \E P \in {{Rnd(Perms(NS(geom))), Rnd(Perms(NS(geom)))}} :
             \E p \in {Rnd(P)}, twice \in {TRUE, FALSE} :
             descs \in {[i \in 1..5 |-> IF i = 1 /\ big /\ NS(geom) > 2 THEN Desc("C1", p)
                                       \* the same three sites in another order
                                       ELSE IF i = 2 /\ big /\ twice /\ NS(geom) > 2 THEN Desc("C1", <<p[1], p[3], p[2]>>)
                                       ELSE Desc(Rnd(Usable(NS(geom), FALSE)), Rnd(P))]}
        /\ hist = <<[op |-> "reg", kind |-> Rnd(Kinds), name |-> "A1", size |-> 1, pqr |-> PQR(0)],
                    [op |-> "reg", kind |-> Rnd(Kinds), name |-> "A2", size |-> 1, pqr |-> PQR(0)],
                    [op |-> "reg", kind |-> Rnd(Kinds), name |-> "B1", size |-> 2, pqr |-> PQR(0)],
                    [op |-> "reg", kind |-> Rnd(Kinds), name |-> "B2", size |-> 2, pqr |-> PQR(0)],
                    [op |-> "reg", kind |-> Rnd(Kinds), name |-> "C1", size |-> 3, pqr |-> PQR(0)]>>
MaxLen == 15
\* operator 1 or 2 gets description k (the same object every time)
Add == Len(hist) < MaxLen - 1 /\ \E o \in {1, 1, 2}, k \in 1..5 : hist' = Append(hist, [op |-> "add", o |-> o, k |-> k])
Has(o) == \E i \in 1..Len(hist) : hist[i].op = "add" /\ hist[i].o = o
Evals == Len(SelectSeq(hist, LAMBDA h : h.op = "eval"))
Eval == /\ Len(hist) < MaxLen /\ (IF Len(hist) < MaxLen - 1 THEN Evals < 2 /\ hist[Len(hist)].op = "add" ELSE TRUE)
        /\ \E o \in {1, 2} : Has(o) /\ \E nc \in {Rnd(1..2)} :
           hist' = Append(hist, [op |-> "eval", o |-> o, cfgs |-> [i \in 1..(nc * d) |-> [j \in 1..NS(geom) |-> Rnd(0..3)]]])
Reject == Len(hist) < MaxLen - 1 /\ hist[Len(hist)].op # "reg"
          /\ \E nm \in {Taken[Rnd(1..Len(Taken))]} : hist' = Append(hist, [op |-> "reg", kind |-> Rnd(Kinds), name |-> nm, size |-> 1, pqr |-> PQR(0)])
Next == \/ (Add \/ Eval \/ Reject) /\ UNCHANGED <<geom, d, descs, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<geom, d, descs, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([shape |-> geom, d |-> d, unit |-> (3 * (Len(descs) + d + hist[1].pqr[1])) % 6, descs |-> descs, steps |-> hist]))
=============================================================================
