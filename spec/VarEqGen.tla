------------------------------ MODULE VarEqGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
RD == atoi(IOEnv.VF_R) * atoi(IOEnv.VF_D)
VARIABLES head, sets, hist, done
vars == <<head, sets, hist, done>>
Rnd(S) == RandomElement(S)
Frc(s) == s \o <<>>
NSets == 3
MaxLen == 7
Init == head = <<>> /\ sets = <<>> /\ hist = <<>> /\ done = FALSE
Setup == /\ Len(head) = 0
   /\ \E des \in {IF RD \in {1, 2, 4} THEN Rnd({"gen", "dep", "orth", "orth"}) ELSE Rnd({"gen", "dep"})}, kind \in {Rnd({"tdvp", "tdvp", "tdvp", "minsr"})} :
      \E mr \in {IF des = "orth" THEN "real" ELSE Rnd({"real", "imag"})} :
      \E P \in {IF mr = "imag" \/ des = "dep" THEN Rnd(2..3) ELSE Rnd(1..3)} :
      head' = <<[kind |-> kind, des |-> des, mr |-> mr, P |-> P, N |-> IF des = "orth" THEN 4 ELSE RD * Rnd(IF RD = 1 THEN {3, 4, 6} ELSE {2, 3}),
                 x |-> IF des = "orth" THEN Rnd({<<1, 0>>, <<0, 1>>, <<-1, 0>>}) ELSE Rnd({<<1, 0>>, <<0, 1>>, <<2, 0>>, <<1, -1>>}),
                 sh |-> Rnd({0, 0, 1, 3}), exact |-> Rnd({TRUE, FALSE}), tol |-> IF des = "orth" THEN Rnd({0, 1, 2}) ELSE 0,
                 cut |-> IF des = "orth" THEN Rnd({0, 50}) ELSE 0, dev |-> Rnd({TRUE, FALSE}), cv |-> Rnd({TRUE, FALSE}),
                 d |-> atoi(IOEnv.VF_D)]>>
   /\ UNCHANGED <<sets, hist, done>>
h == head[1]
V == IF h.P = 3 THEN {-1, 0, 1} ELSE {-2, -1, 0, 1, 2}
Z == <<Rnd(V), Rnd(V)>>
Pat == << <<1, 1, -1, -1>>, <<1, -1, 1, -1>>, <<1, -1, -1, 1>> >>
Amps == {<<1, 2, 3>>, <<2, 1, 3>>, <<3, 1, 2>>, <<-1, 3, 2>>, <<2, -3, 1>>, <<3, 2, -1>>}
MkSet == /\ Len(head) = 1 /\ Len(sets) < NSets
   /\ \E am \in {Rnd(Amps)}, z \in {<<Rnd({-1, 0, 1}), Rnd({-1, 0, 1})>>} :
      \E base \in {Frc([n \in 1..h.N |-> Frc([j \in 1..h.P |-> IF h.des = "orth" THEN <<am[j] * Pat[j][n], 0>> ELSE Z])])} :
      sets' = Append(sets, [k |-> IF h.des = "orth" THEN <<1, 1, 1, 1>> ELSE Frc([n \in 1..h.N |-> Rnd({1, 1, 2})]),
                            z |-> IF h.P = 3 THEN <<z[1], z[2], -1>> ELSE IF h.P = 2 THEN <<z[1], -1>> ELSE <<-1>>,
                            g |-> IF h.des # "dep" THEN base ELSE
                                  Frc([n \in 1..h.N |-> Frc([j \in 1..h.P |-> IF j < h.P THEN base[n][j] ELSE
                                      <<z[1] * base[n][1][1] + (IF h.P = 3 THEN z[2] * base[n][2][1] ELSE 0), z[1] * base[n][1][2] + (IF h.P = 3 THEN z[2] * base[n][2][2] ELSE 0)>>])]),
                            E |-> Frc([n \in 1..h.N |-> <<Rnd({-1, 0, 1}), Rnd({-1, 0, 1})>>])])
   /\ UNCHANGED <<head, hist, done>>
CallA == /\ Len(sets) = NSets /\ Len(hist) < MaxLen
   /\ hist' = Append(hist, [set |-> Rnd(1..NSets), st |-> IF hist = <<>> THEN 0 ELSE Rnd({-1, 0, 0, 1, 2, 4}), t |-> Rnd(0..9), small |-> Rnd({2, 4, 7}),
                           \* settings changed before the call (-1: not)
                           nsh |-> Rnd({-1, -2, -3, 0, 1, 2}), ncv |-> Rnd({-1, -2, -3, 0, 1})])
   /\ UNCHANGED <<head, sets, done>>
Fin == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, sets, hist>>
Next == Setup \/ MkSet \/ CallA \/ Fin
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([h |-> head[1], sets |-> sets, calls |-> hist]))
=============================================================================
