----------------------------- MODULE PovmDual -----------------------------
(* The outcome distribution of an informationally complete measurement as a dual picture of the        *)
(* density matrix. Design model: the tetrahedral measurement with integer operators                     *)
(*     M_a = (k + s_a.sigma)/(4k),   dual frame  D_a = (1 + k s_a.sigma)/2,   Tr(D_a M_b) = delta_ab,    *)
(* so that every number is exact. A generator of evolution acts on the state (commutator, Lindblad or   *)
(* anticommutator) and, through its matrix Omega, on the distribution; both have to stay in step.       *)
EXTENDS Num
CONSTANTS K, Depth, OpSet
VARIABLES rho, p, k, last, O, A0
vars == <<rho, p, k, last, O, A0>>

\* ---- matrices over the Gaussian integers: sequences of rows
Dim(a) == Len(a)
MSize(a) == Len(a)
RECURSIVE CDot(_, _, _, _, _)
CDot(a, b, i, j, m) == IF m = 0 THEN <<0, 0>> ELSE CAdd(CMul(a[i][m], b[m][j]), CDot(a, b, i, j, m - 1))
MMul(a, b) == Force([i \in 1..MSize(a) |-> Force([j \in 1..MSize(a) |-> CDot(a, b, i, j, MSize(a))])])
MAdd(a, b) == Force([i \in 1..MSize(a) |-> Force([j \in 1..MSize(a) |-> CAdd(a[i][j], b[i][j])])])
MSub(a, b) == Force([i \in 1..MSize(a) |-> Force([j \in 1..MSize(a) |-> CSub(a[i][j], b[i][j])])])
MScale(c, a) == Force([i \in 1..MSize(a) |-> Force([j \in 1..MSize(a) |-> CMul(c, a[i][j])])])
Dag(a) == Force([i \in 1..MSize(a) |-> Force([j \in 1..MSize(a) |-> CConj(a[j][i])])])
\* trace of a product
TrMul(a, b) == CSumSeq([i \in 1..MSize(a) |-> CDot(a, b, i, i, MSize(a))])
Kron(a, b) == LET m == MSize(b) IN Force([i \in 1..(MSize(a) * m) |-> Force([j \in 1..(MSize(a) * m) |->
                  CMul(a[((i - 1) \div m) + 1][((j - 1) \div m) + 1], b[((i - 1) % m) + 1][((j - 1) % m) + 1])])])
One2 == << <<<<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<1, 0>>>> >>
SX == << <<<<0, 0>>, <<1, 0>>>>, <<<<1, 0>>, <<0, 0>>>> >>
SY == << <<<<0, 0>>, <<0, -1>>>>, <<<<0, 1>>, <<0, 0>>>> >>
SZ == << <<<<1, 0>>, <<0, 0>>>>, <<<<0, 0>>, <<-1, 0>>>> >>
Sg == <<One2, SX, SY, SZ>>

\* ---- generators: the derivative of the state (twice it for the Lindblad form, which has halves)
Comm(a, r) == MScale(<<0, -1>>, MSub(MMul(a, r), MMul(r, a)))
Lindblad2(a, r) == LET ad == Dag(a) n == MMul(ad, a) IN MSub(MScale(<<2, 0>>, MMul(MMul(a, r), ad)), MAdd(MMul(n, r), MMul(r, n)))
AntiC(a, r) == MScale(<<-1, 0>>, MAdd(MMul(a, r), MMul(r, a)))
Deriv(mode, a, r) == IF mode = "uni" THEN Comm(a, r) ELSE IF mode = "dis" THEN Lindblad2(a, r) ELSE AntiC(a, r)
Twice(mode) == IF mode = "dis" THEN 2 ELSE 1
Conserving(mode) == mode \in {"uni", "dis"}

\* ---- the integer measurement of the design model
Tet == << <<1, 1, 1>>, <<1, -1, -1>>, <<-1, 1, -1>>, <<-1, -1, 1>> >>
Lin(t, x, y, z) == MAdd(MAdd(MScale(<<t, 0>>, One2), MScale(<<x, 0>>, SX)), MAdd(MScale(<<y, 0>>, SY), MScale(<<z, 0>>, SZ)))
M4k(a) == Lin(K, Tet[a][1], Tet[a][2], Tet[a][3])
D2(a) == Lin(1, K * Tet[a][1], K * Tet[a][2], K * Tet[a][3])
ASSUME \A a, b \in 1..4 : TrMul(D2(a), M4k(b)) = IF a = b THEN <<8 * K, 0>> ELSE <<0, 0>>
\* 4k times the outcome distribution of a (not normalised) state
Probs(r) == Force([a \in 1..4 |-> TrMul(r, M4k(a))[1]])
\* 8k times the matrix of a generator
Omega(mode, a) == Force([x \in 1..4 |-> Force([y \in 1..4 |-> TrMul(M4k(x), Deriv(mode, a, D2(y)))[1]])])
ObsVec(a) == Force([x \in 1..4 |-> TrMul(D2(x), a)[1]])
Apply(o, q) == Force([x \in 1..4 |-> SumSeq([y \in 1..4 |-> o[x][y] * q[y]])])
Herm(a) == Dag(a) = a
Gs == {g \in {"uni", "dis", "imag"} \X OpSet : g[1] = "dis" \/ Herm(g[2])}

Init == /\ rho \in {Lin(1, 1, 0, 0), Lin(1, 0, -1, 0), Lin(2, 0, 1, 1), Lin(3, 1, 2, 2)} /\ p = Probs(rho) /\ k = 0 /\ last = "none" /\ O = <<>> /\ A0 = <<>>
Evolve == /\ k < Depth /\ k' = k + 1
          /\ \E g \in Gs : /\ last' = g[1] /\ A0' = g[2] /\ O' = Omega(g[1], g[2])
                           /\ rho' = Deriv(g[1], g[2], rho)
                           /\ p' = [x \in 1..4 |-> Apply(Omega(g[1], g[2]), p)[x] \div (8 * K)]
Next == Evolve
Spec == Init /\ [][Next]_vars

InStep == \A x \in 1..4 : p[x] = Probs(rho)[x]
Hermitian == Herm(rho)
ConservesProbability == last \in {"uni", "dis"} => /\ SumSeq(Force(p)) = 0
                                                   /\ \A y \in 1..4 : SumSeq([x \in 1..4 |-> O[x][y]]) = 0
Expectation == last # "none" /\ Herm(A0) => SumSeq([x \in 1..4 |-> ObsVec(A0)[x] * Probs(rho)[x]]) = 8 * K * TrMul(rho, A0)[1]
Xops == {Sg[2], Sg[3], Sg[4], Lin(0, 1, 1, 0), Lin(1, 0, 2, -1), MAdd(SX, MScale(<<0, 1>>, SY)), MSub(SX, MScale(<<0, 1>>, SY)), MAdd(SZ, MScale(<<0, 1>>, SX)), MScale(<<1, 1>>, SY)}
XopsSmall == {Sg[2], Lin(1, 0, 2, -1), MAdd(SX, MScale(<<0, 1>>, SY)), MAdd(SZ, MScale(<<0, 1>>, SX))}
=============================================================================
