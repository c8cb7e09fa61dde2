-------------------------------- MODULE VarEq --------------------------------
(* The variational equation. Samples n have integer weights k[n] with sum W, Gaussian integer gradients *)
(* g[n][j] and local energies E[n]. Covariances are kept as integers, scaled by the square of W.        *)
EXTENDS Num, TLC
WSum(k) == SumSeq(k)
Csum(f(_), n) == CSumSeq([i \in 1..n |-> f(i)])
\* scaled covariance of a and b (conjugate of the first)
Cov2(k, a(_), b(_)) == LET n == Len(k)
                           ab == Csum(LAMBDA i : CScale(k[i], CMul(CConj(a(i)), b(i))), n)
                           sa == Csum(LAMBDA i : CScale(k[i], a(i)), n)
                           sb == Csum(LAMBDA i : CScale(k[i], b(i)), n)
                       IN CSub(CScale(WSum(k), ab), CMul(CConj(sa), sb))
S0(d, i, j) == Cov2(d.k, LAMBDA n : d.g[n][i], LAMBDA n : d.g[n][j])
C0(d, i) == Cov2(d.k, LAMBDA n : d.g[n][i], LAMBDA n : d.E[n])
Var2(d) == Cov2(d.k, LAMBDA n : d.E[n], LAMBDA n : d.E[n])[1]
ESum(d) == Csum(LAMBDA n : CScale(d.k[n], d.E[n]), Len(d.k))
NP(d) == Len(d.g[1])
Part(mr, z) == IF mr = "real" THEN z[1] ELSE z[2]
\* left hand side, times two: real or imaginary part, diagonal scaled by one plus half the shift number
Lhs(d, mr, sh) == Force([i \in 1..NP(d) |-> Force([j \in 1..NP(d) |-> LET s == Part(mr, S0(d, i, j)) IN IF i = j THEN (2 + sh) * s ELSE 2 * s])])
\* right hand side, times two: minus prefactor times force
F0(d, x) == Force([i \in 1..NP(d) |-> CMul(<<-x[1], -x[2]>>, C0(d, i))])
Rhs(d, mr, x) == Force([i \in 1..NP(d) |-> 2 * Part(mr, F0(d, x)[i])])
Zero(m) == \A i \in 1..Len(m) : \A j \in 1..Len(m) : m[i][j] = 0

\* ---- design model 1: algebra of the equation for all small samples
CONSTANTS Vals, Ws, NS, NPar
VARIABLES d, phase, cur, rep, want, ret, calls, nset
avars == <<d, phase, cur, rep, want, ret, calls, nset>>
Gauss == {<<a, b>> : a, b \in Vals}
AInit == /\ d \in [k : [1..NS -> Ws], g : [1..NS -> [1..NPar -> Gauss]], E : [1..NS -> {<<0, 0>>, <<1, -1>>}]]
         /\ phase = "idle" /\ cur = 0 /\ rep = 0 /\ want = 0 /\ ret = 0 /\ calls = 0 /\ nset = 0
ASpec == AInit /\ [][UNCHANGED avars]_avars
Hermitian == \A i, j \in 1..NPar : S0(d, i, j) = CConj(S0(d, j, i)) /\ S0(d, i, i)[2] = 0
Positive == /\ \A i \in 1..NPar : S0(d, i, i)[1] >= 0
            /\ NPar = 2 => S0(d, 1, 1)[1] * S0(d, 2, 2)[1] >= S0(d, 1, 2)[1] * S0(d, 1, 2)[1] + S0(d, 1, 2)[2] * S0(d, 1, 2)[2]
\* constant offsets do not matter
ShiftE == [d EXCEPT !.E = [n \in 1..NS |-> CAdd(d.E[n], <<2, -1>>)]]
ShiftG == [d EXCEPT !.g = [n \in 1..NS |-> [j \in 1..NPar |-> CAdd(d.g[n][j], <<1, 3>>)]]]
OffsetFree == /\ \A i \in 1..NPar : C0(ShiftE, i) = C0(d, i) /\ C0(ShiftG, i) = C0(d, i)
              /\ \A i, j \in 1..NPar : S0(ShiftG, i, j) = S0(d, i, j)
              /\ Var2(ShiftE) = Var2(d)
\* a parameter without gradient feels no force; without energy fluctuations there is no force
NoForce == (\A i \in 1..NPar : S0(d, i, i)[1] = 0 => C0(d, i) = <<0, 0>>) /\ (Var2(d) = 0 => \A i \in 1..NPar : C0(d, i) = <<0, 0>>)
\* with real parts the equation is always solvable: the two by two case by Cramer's rule
Solvable == NPar = 2 => LET A == Lhs(d, "real", 0) F == Rhs(d, "real", <<1, 0>>) IN
            A[1][1] * A[2][2] = A[1][2] * A[2][1] => A[1][1] * F[2] = A[2][1] * F[1] /\ A[2][2] * F[1] = A[1][2] * F[2]

\* ---- design model 2: stages, cross-validation and what is reported. Data sets are numbers; a solution
\* overwrites the working copy cur (set, part), reports are copied at stage zero
CONSTANTS Sets, MaxCalls
HInit == d = 0 /\ phase = "idle" /\ cur = <<0, "all">> /\ rep = 0 /\ want = <<0, 0, FALSE>> /\ ret = <<0, "all">> /\ calls = 0 /\ nset = 0
Call == /\ phase = "idle" /\ calls < MaxCalls /\ \E s \in Sets, st \in {-1, 0, 1}, cv \in BOOLEAN : want' = <<s, st, cv>> /\ cur' = <<s, "all">> /\ ret' = <<s, "all">>
        /\ phase' = "solved" /\ calls' = calls + 1 /\ UNCHANGED <<d, rep, nset>>
Keep == /\ phase = "solved" /\ IF want[2] = 0 THEN rep' = cur[1] ELSE rep' = rep
        /\ phase' = (IF want[2] = 0 /\ want[3] THEN "cv1" ELSE "idle") /\ UNCHANGED <<d, cur, want, ret, calls, nset>>
Cv1 == phase = "cv1" /\ cur' = <<cur[1], "first half">> /\ phase' = "cv2" /\ UNCHANGED <<d, rep, want, ret, calls, nset>>
Cv2 == phase = "cv2" /\ cur' = <<cur[1], "second half">> /\ phase' = "cv3" /\ UNCHANGED <<d, rep, want, ret, calls, nset>>
Cv3 == phase = "cv3" /\ cur' = <<cur[1], "all">> /\ ret' = cur' /\ phase' = "idle" /\ UNCHANGED <<d, rep, want, calls, nset>>
HNext == Call \/ Keep \/ Cv1 \/ Cv2 \/ Cv3
HSpec == HInit /\ [][HNext]_avars
Answer == phase = "idle" => cur = <<want[1], "all">> /\ ret = cur
Reports == phase = "idle" /\ want[2] = 0 => rep = want[1]
Stable == [][(phase = "idle" /\ phase' = "idle") \/ (phase' = "solved") \/ rep' = rep \/ want[2] = 0]_avars
=============================================================================
