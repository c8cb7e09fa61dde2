----------------------------- MODULE Evolution -----------------------------
(* The assembled calculation for a complete ansatz: one logarithmic amplitude per configuration. A    *)
(* sample is drawn, local estimators and gradients are evaluated, the variational equation is solved. *)
(* Its solution is the exact motion: u(s) = -x (H psi)(s) / psi(s), up to a constant, on every         *)
(* configuration in the sample, whatever the weights. Estimators are kept times two (amplitudes have   *)
(* modulus one or two).                                                                                *)
EXTENDS VarEq
CONSTANTS NC, Amps, Els, Xs, Counts, Box
A3 == {<<1, 0>>, <<0, 1>>, <<-2, 0>>}
A2 == {<<1, 0>>, <<0, -2>>}
E3 == {<<0, 0>>, <<1, 0>>, <<1, -1>>}
E2 == {<<0, 0>>, <<0, 1>>}
B1 == {-1, 0, 1}
X2 == {<<1, 0>>, <<0, 1>>}
X3 == {<<1, 0>>, <<0, 1>>, <<-1, 0>>}
VARIABLES psi, H, x, u
evars == <<psi, H, x, u>>
all == <<evars, avars>>
C == 1..NC
Norm2(z) == z[1] * z[1] + z[2] * z[2]
Ratio2(z, y) == LET p == CMul(z, CConj(y)) n == Norm2(y) IN <<(2 * p[1]) \div n, (2 * p[2]) \div n>>
Eloc2(s) == CSumSeq([t \in C |-> CMul(H[s][t], Ratio2(psi[t], psi[s]))])
EInit == /\ psi \in [C -> Amps] /\ H \in [C -> [C -> Els]] /\ x \in Xs /\ u = 0
         /\ d = [k |-> 0, g |-> <<>>, E |-> <<>>] /\ phase = "start" /\ cur = "" /\ rep = 0 /\ want = 0 /\ ret = 0 /\ calls = 0 /\ nset = 0
Rest == UNCHANGED <<psi, H, x, cur, rep, want, ret, calls, nset>>
\* exact: the Born weights; otherwise any numbers of occurrences, of at least two configurations
Sample == /\ phase = "start" /\ phase' = "sampled" /\ UNCHANGED u /\ Rest
          /\ \E k \in {Force([s \in C |-> Norm2(psi[s])])} \cup {Force(c) : c \in [C -> Counts]} :
               /\ Cardinality({s \in C : k[s] > 0}) > 1 /\ d' = [d EXCEPT !.k = k]
\* estimators and gradients, in either order
Estimate == phase # "start" /\ d.E = <<>> /\ d' = [d EXCEPT !.E = Force([s \in C |-> Eloc2(s)])] /\ UNCHANGED <<phase, u>> /\ Rest
Grads == /\ phase # "start" /\ d.g = <<>> /\ UNCHANGED <<phase, u>> /\ Rest
         /\ d' = [d EXCEPT !.g = Force([s \in C |-> Force([j \in 1..(2 * NC) |-> IF j = s THEN <<1, 0>> ELSE IF j = NC + s THEN <<0, 1>> ELSE <<0, 0>>])])]
Solve == /\ phase = "sampled" /\ d.E # <<>> /\ d.g # <<>> /\ phase' = "solved" /\ UNCHANGED d /\ Rest
         /\ u' = Force([j \in 1..(2 * NC) |-> -CMul(x, d.E[IF j > NC THEN j - NC ELSE j])[IF j > NC THEN 2 ELSE 1]])
ENext == Sample \/ Estimate \/ Grads \/ Solve
ESpec == EInit /\ [][ENext]_all
Holds(mr, v, F) == LET A == Lhs(d, mr, 0) IN \A i \in 1..(2 * NC) : SumTo([j \in 1..(2 * NC) |-> A[i][j] * v[j]], 2 * NC) = F[i]
ExactMotion == phase = "solved" => \A mr \in {"real", "imag"} : Holds(mr, u, Rhs(d, mr, x))
\* nothing but constants is left open
Support == {s \in C : d.k[s] > 0}
Unique == phase = "solved" /\ (\A s, t \in C : H[s][t] = H[1][1]) =>
    LET Zr == [i \in 1..(2 * NC) |-> 0] IN
    \A v \in [1..(2 * NC) -> Box], mr \in {"real", "imag"} :
        Holds(mr, v, Zr) => \A s, t \in Support : v[s] = v[t] /\ v[NC + s] = v[NC + t]
\* for a Hermitian operator the real time motion keeps norm and energy (Born weights, first order)
Hermitian0 == \A s, t \in C : H[s][t] = CConj(H[t][s])
Born == \A s \in C : d.k[s] = Norm2(psi[s])
Conserved == phase = "solved" /\ x = <<0, 1>> /\ Hermitian0 /\ Born =>
    /\ SumTo([s \in C |-> d.k[s] * u[s]], NC) = 0
    /\ SumTo([s \in C |-> d.k[s] * CMul(CConj(d.E[s]), <<u[s], u[NC + s]>>)[1]], NC) = 0
=============================================================================
