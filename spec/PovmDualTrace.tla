-------------------------- MODULE PovmDualTrace --------------------------
(* Real numbers are recorded in units of 10^-6. The state of a walk is the recorded measurement.        *)
EXTENDS PovmDual, TraceBase
U == 1000000
\* product of two fixed point numbers (|a| < 10^9, |b| < 10^6)
FMul(a, b) == LET ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000 IN ah * bh + RDiv(ah * bl + al * bh, 1000) + ((al * bl) \div U)
FCMul(x, y) == <<FMul(x[1], y[1]) - FMul(x[2], y[2]), FMul(x[1], y[2]) + FMul(x[2], y[1])>>
FKron(a, b) == LET m == MSize(b) IN Force([i \in 1..(MSize(a) * m) |-> Force([j \in 1..(MSize(a) * m) |->
                  FCMul(a[((i - 1) \div m) + 1][((j - 1) \div m) + 1], b[((i - 1) % m) + 1][((j - 1) % m) + 1])])])
FTr(a, b) == CSumSeq([i \in 1..MSize(a) |-> CSumSeq([j \in 1..MSize(a) |-> FCMul(a[i][j], b[j][i])])])
Start(c) == [M1 |-> <<>>, M2 |-> <<>>, P1 |-> <<>>, P2 |-> <<>>]
Sane(M) == Len(M) = 4 /\ \A a \in 1..4 : \A i, j \in 1..2 : Abs(M[a][i][j][1]) < U /\ Abs(M[a][i][j][2]) < U
\* basis of all (hermitian) states: products of 1 and the Pauli matrices
Basis1 == Sg
Basis2 == Force([i \in 1..16 |-> Kron(Sg[((i - 1) \div 4) + 1], Sg[((i - 1) % 4) + 1])])
Outcomes(M, B) == Force([b \in 1..Len(B) |-> Force([a \in 1..Len(M) |-> TrMul(B[b], M[a])[1]])])
Step(c, s, e) == IF e.op = "povm" /\ Sane(e.M) THEN
        LET m1 == Force(e.M) m2 == Force([i \in 1..16 |-> FKron(e.M[((i - 1) \div 4) + 1], e.M[((i - 1) % 4) + 1])]) IN
        [M1 |-> m1, M2 |-> m2, P1 |-> Outcomes(m1, Basis1), P2 |-> Outcomes(m2, Basis2)]
    ELSE s
Tol == 200
Named(nm) == CASE nm = "X" -> SX [] nm = "Y" -> SY [] nm = "Z" -> SZ
               [] nm = "XX" -> Kron(SX, SX) [] nm = "YY" -> Kron(SY, SY) [] nm = "ZZ" -> Kron(SZ, SZ)
               [] nm = "decayup" -> << <<<<0, 0>>, <<1, 0>>>>, <<<<0, 0>>, <<0, 0>>>> >>
               [] nm = "decaydown" -> << <<<<0, 0>>, <<0, 0>>>>, <<<<1, 0>>, <<0, 0>>>> >>
               [] nm = "dephasing" -> SZ
Bounded(o, m) == Len(o) = m /\ \A x \in 1..m : Len(o[x]) = m /\ \A y \in 1..m : Abs(o[x][y]) < 500000000
EvoFails(s, mode, A, o) ==
    LET two == MSize(A) = 4 M == IF two THEN s.M2 ELSE s.M1 P == IF two THEN s.P2 ELSE s.P1 B == IF two THEN Basis2 ELSE Basis1 m == Len(M) IN
    IF M = <<>> THEN {"measurement"} ELSE IF ~Bounded(o, m) THEN {"matrix-shape"}
    ELSE (IF \A b \in 1..Len(B) : LET dr == Deriv(mode, A, B[b]) IN \A x \in 1..m :
                 Near(Twice(mode) * SumSeq([y \in 1..m |-> FMul(o[x][y], P[b][y])]), TrMul(dr, M[x])[1], Tol * m) THEN {} ELSE {"dual-" \o mode})
         \cup (IF Conserving(mode) => \A y \in 1..m : Near(SumSeq([x \in 1..m |-> o[x][y]]), 0, 20) THEN {} ELSE {"conserves-probability"})
ObsFails(s, A, v) == IF s.M1 = <<>> THEN {"measurement"} ELSE IF Len(v) # 4 \/ \E x \in 1..4 : Abs(v[x]) > 500000000 THEN {"matrix-shape"}
    ELSE IF \A b \in 1..4 : Near(SumSeq([x \in 1..4 |-> FMul(v[x], s.P1[b][x])]), U * TrMul(Sg[b], A)[1], Tol) THEN {} ELSE {"expectation"}
PovmFails(c, e) == IF ~Sane(e.M) THEN {"measurement"} ELSE
    LET M == e.M dir == <<FMul(e.st, e.cp), FMul(e.st, e.sp), e.ct>> IN
    (IF \A a \in 1..4 : /\ CNear(M[a][1][2], CConj(M[a][2][1]), 2) /\ Abs(M[a][1][1][2]) <= 2 /\ Abs(M[a][2][2][2]) <= 2
                        /\ M[a][1][1][1] >= -2 /\ M[a][2][2][1] >= -2
                        /\ FMul(M[a][1][1][1], M[a][2][2][1]) - FMul(M[a][1][2][1], M[a][1][2][1]) - FMul(M[a][1][2][2], M[a][1][2][2]) >= -8 THEN {} ELSE {"positive"})
    \cup (IF \A i, j \in 1..2 : CNear(CSumSeq([a \in 1..4 |-> M[a][i][j]]), <<IF i = j THEN U ELSE 0, 0>>, 8) THEN {} ELSE {"sums-to-identity"})
    \cup (IF \A a, b \in 1..4 : Near(e.T[a][b], FTr(M[a], M[b])[1], 20) THEN {} ELSE {"overlap"})
    \cup (IF \A a, b \in 1..4 : Abs(e.Ti[a][b]) < 100000000 /\ Near(SumSeq([x \in 1..4 |-> FMul(e.Ti[a][x], e.T[x][b])]), IF a = b THEN U ELSE 0, 100) THEN {} ELSE {"inverse"})
    \* orientation: the first operator points along the given direction of the Bloch sphere
    \cup (IF /\ Near(4 * M[1][1][1][1], U + dir[3], 20) /\ Near(4 * M[1][2][1][1], dir[1], 20) /\ Near(4 * M[1][2][1][2], dir[2], 20) THEN {} ELSE {"orientation"})
States == [z_up |-> <<4, 1>>, z_down |-> <<4, -1>>, x_up |-> <<2, 1>>, x_down |-> <<2, -1>>, y_up |-> <<3, 1>>, y_down |-> <<3, -1>>]
OneFails(s, e) == IF s.M1 = <<>> THEN {"measurement"} ELSE LET d == States[e.name] r == MAdd(One2, MScale(<<d[2], 0>>, Sg[d[1]])) IN
    IF Len(e.p) = 4 /\ \A a \in 1..4 : Near(2 * e.p[a], TrMul(r, s.M1[a])[1], 20) THEN {} ELSE {"one-particle"}
Fails(c, s, e) ==
    CASE e.op = "povm" -> PovmFails(c, e)
      [] e.op = "one" -> OneFails(s, e)
      [] e.op = "obs" -> ObsFails(s, e.A, e.v)
      [] e.op = "stdobs" -> ObsFails(s, Named(e.name), e.v)
      [] e.op = "evo" -> EvoFails(s, e.mode, e.A, e.o)
      [] e.op = "std" -> EvoFails(s, e.mode, Named(e.name), e.o)
      [] OTHER -> {"unknown-event"}
TraceInit == TInit /\ rho = 0 /\ p = 0 /\ k = 0 /\ last = 0 /\ O = 0 /\ A0 = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
