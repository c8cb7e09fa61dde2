---------------------------- MODULE SampledStats ----------------------------
(* Weighted samples distributed over processes and devices, and the statistics objects derived from  *)
(* them. An object is [shape, den, x, a, lay]: x[n] are the components (Gaussian integers over the   *)
(* common denominator den) of sample n in process/device/batch order, a[n]^2 its (unnormalised)      *)
(* weight, lay[b] the number of samples in the b-th device batch.                                    *)
EXTENDS Num, TLC

NS(o) == Len(o.x)
NC(o) == Len(o.x[1])
WT(o) == SumSeq([n \in 1..NS(o) |-> o.a[n] * o.a[n]])
S1(o, k) == CSumSeq([n \in 1..NS(o) |-> CScale(o.a[n] * o.a[n], o.x[n][k])])
AllS(o) == Force([k \in 1..NC(o) |-> S1(o, k)])
\* centred components times W*den, for all samples
AllCen(o) == LET W == WT(o) S == AllS(o) IN Force([n \in 1..NS(o) |-> Force([k \in 1..NC(o) |-> CSub(CScale(W, o.x[n][k]), S[k])])])

\* ---- statistics, as exact fractions [num, den]
Frac(z, d) == [num |-> z, den |-> d]
Mean(o) == LET W == WT(o) IN Force([k \in 1..NC(o) |-> Frac(S1(o, k), W * o.den)])
Cov1(o, p, W, Sk, Sl, k, l) ==
    LET s == CSumSeq([n \in 1..NS(o) |-> CScale(o.a[n] * o.a[n], CMul(CConj(o.x[n][k]), p.x[n][l]))])
    IN Frac(CSub(CScale(W, s), CMul(CConj(Sk), Sl)), W * W * o.den * p.den)
Covar(o, p) == LET W == WT(o) So == AllS(o) Sp == AllS(p) IN
               Flat([k \in 1..NC(o) |-> [l \in 1..NC(p) |-> Cov1(o, p, W, So[k], Sp[l], k, l)]])
Var(o) == LET W == WT(o) So == AllS(o) IN Force([k \in 1..NC(o) |-> Cov1(o, o, W, So[k], So[k], k, k)])

\* ---- estimators given as functions of parameters p (complex, or real: all imaginary parts zero):
\* p -> sum_k p_k^2 s_k + i sum_k conj(p_k) s_k s_1, for the ansatz log psi = sum_k (k + i) p_k s_k (complex p)
EstVal(p, s) == CSumSeq([k \in 1..Len(p) |-> CAdd(CScale(s[k], CMul(p[k], p[k])), CScale(s[k] * s[1], CMul(<<0, 1>>, CConj(p[k]))))])
\* derivative with respect to the real (j = 1) or imaginary (j = 2) part of p_k
EstDer(p, s, k, j) == LET u == IF j = 1 THEN <<1, 0>> ELSE <<0, 1>> IN
    CAdd(CScale(2 * s[k], CMul(p[k], u)), CScale(s[k] * s[1], CMul(<<0, 1>>, CConj(u))))
\* twice the derivative of the real part of log psi
Log2(s, k, j) == IF j = 1 THEN 2 * k * s[k] ELSE -2 * s[k]
EstGrad(cpx, p, S, a) ==
    LET N == Len(S)
        W == SumSeq([m \in 1..N |-> a[m] * a[m]])
        v == Force([m \in 1..N |-> EstVal(p, S[m])])
        E == CSumSeq([m \in 1..N |-> CScale(a[m] * a[m], v[m])])
        one(k, j) == Frac(CAdd(CSumSeq([m \in 1..N |-> CScale(a[m] * a[m] * Log2(S[m], k, j), CSub(CScale(W, v[m]), E))]),
                               CScale(W, CSumSeq([m \in 1..N |-> CScale(a[m] * a[m], EstDer(p, S[m], k, j))]))), W * W)
    IN [k \in 1..Len(p) |-> one(k, 1)] \o (IF cpx THEN [k \in 1..Len(p) |-> one(k, 2)] ELSE <<>>)

\* ---- derived objects
Select(o, ixs) ==     \* components along the first index
    LET row == NC(o) \div o.shape[1]
    IN [o EXCEPT !.shape = [o.shape EXCEPT ![1] = Len(ixs)],
                 !.x = [n \in 1..NS(o) |-> Flat([j \in 1..Len(ixs) |-> SubSeq(o.x[n], (ixs[j] - 1) * row + 1, ixs[j] * row)])]]
\* positions st, st+sp, ... below en within every device batch
RECURSIVE Pick(_, _, _)
Pick(st, en, sp) == IF st >= en THEN <<>> ELSE <<st>> \o Pick(st + sp, en, sp)
Offs(lay, b) == SumTo(lay, b - 1)
Subset(o, st, en, sp) ==
    LET pos(b) == [i \in 1..Len(Pick(st, MinI(en, o.lay[b]), sp)) |-> Offs(o.lay, b) + Pick(st, MinI(en, o.lay[b]), sp)[i] + 1]
        all == Flat([b \in 1..Len(o.lay) |-> pos(b)])
    IN [o EXCEPT !.x = [i \in 1..Len(all) |-> o.x[all[i]]], !.a = [i \in 1..Len(all) |-> o.a[all[i]]],
                 !.lay = [b \in 1..Len(o.lay) |-> Len(pos(b))]]
Apply(f, z, den) ==   \* the function on a single component, with the power of the denominator it needs
    CASE f = "id" -> z
      [] f = "conj" -> CConj(z)
      [] f = "real" -> <<z[1], 0>>
      [] f = "imag" -> <<z[2], 0>>
      [] f = "sq" -> CMul(z, z)
      [] f = "abs2" -> <<z[1] * z[1] + z[2] * z[2], 0>>
      [] f = "affine" -> CSub(CScale(2, z), <<den, den>>)       \* 2 x - (1 + i)
DenPow(f, den) == IF f \in {"sq", "abs2"} THEN den * den ELSE den
Map(o, f) == [o EXCEPT !.x = [n \in 1..NS(o) |-> [k \in 1..NC(o) |-> Apply(f, o.x[n][k], o.den)]], !.den = DenPow(f, o.den)]
\* linear map on the first index of a matrix valued observation
Lin(o, M) ==
    LET cols == o.shape[2]
    IN [o EXCEPT !.shape = <<Len(M), cols>>,
                 !.x = [n \in 1..NS(o) |-> Flat([i \in 1..Len(M) |-> [c \in 1..cols |->
                          CSumSeq([k \in 1..o.shape[1] |-> CScale(M[i][k], o.x[n][(k - 1) * cols + c])])]])]]
CovData(o, p) == LET C == AllCen(o) E == AllCen(p) W == WT(o) IN
                 [o EXCEPT !.shape = <<NC(o), NC(p)>>, !.den = W * W * o.den * p.den,
                           !.x = Force([n \in 1..NS(o) |-> Flat([k \in 1..NC(o) |-> [l \in 1..NC(p) |-> CMul(CConj(C[n][k]), E[n][l])]])])]
CovVar(o, p) == Var(CovData(o, p))
Kernel(o) == LET C == AllCen(o) W == WT(o) IN
             Flat([i \in 1..NS(o) |-> [j \in 1..NS(o) |->
                Frac(CScale(o.a[i] * o.a[j], CSumSeq([k \in 1..NC(o) |-> CMul(C[i][k], CConj(C[j][k]))])),
                     W * W * W * o.den * o.den)]])

\* ---- magnitude: everything that is queried must fit into 32 bits (with quantisation by 100)
RECURSIVE MaxTo(_, _)
MaxTo(f, n) == IF n = 0 THEN 0 ELSE MaxI(f[n], MaxTo(f, n - 1))
MaxAbs(o) == MaxTo([n \in 1..NS(o) |-> MaxTo([k \in 1..NC(o) |-> MaxI(Abs(o.x[n][k][1]), Abs(o.x[n][k][2]))], NC(o))], NS(o))
Fits(o, p) == LET W == WT(o) mo == MaxAbs(o) mp == MaxAbs(p) IN
              /\ mo < 10000 /\ mp < 10000 /\ o.den < 10000 /\ p.den < 10000
              /\ W * o.den < 20000000 \div (W * p.den)
              /\ mo < (500000000 \div (W * W)) \div (IF mp = 0 THEN 1 ELSE mp)
CovFits(o, p) == LET W == WT(o) mo == W * MaxAbs(o) * 2 mp == W * MaxAbs(p) * 2 IN
                 /\ Fits(o, p) /\ mo < 3000 /\ mp < 3000 /\ W * W * o.den * p.den < 4000
                 /\ mo * mp < 15000000 \div (W * W)
                 /\ 2 * mo * mp < 22000 \div W
                 /\ W * W * o.den * p.den * W < 4400
KFits(o) == Fits(o, o) /\ WT(o) * WT(o) * WT(o) * o.den * o.den < 20000000 /\ MaxAbs(o) * WT(o) < 3000

\* ---- design model: chains of operations on two small objects
CONSTANTS XVals, AVals, Lays
XV == {<<<<-1, 1>>, <<2, 0>>>>, <<<<0, 2>>, <<1, -1>>>>}
XVB == XV \cup {<<<<1, 0>>, <<0, 0>>>>}
LY == {<<2>>, <<1, 1>>}
LYB == {<<2>>, <<1, 1>>, <<2, 1>>}
VARIABLES objs, n
vars == <<objs, n>>
Base(K, lay, f, a) == [shape |-> <<K>>, den |-> 1, x |-> f, a |-> a, lay |-> lay, lin |-> <<>>]
EstObj(lay, S, p, a) == Base(1, lay, Force([m \in 1..Len(S) |-> <<EstVal(p, S[m])>>]), a)
Init == /\ n = 0
        /\ \E lay \in Lays : LET N == SumSeq(lay) IN \E f \in [1..N -> XVals], a \in [1..N -> AVals] :
              objs = <<Base(2, lay, f, a)>>
Last == objs[Len(objs)]
Grow(o) == Fits(o, o) /\ objs' = Append(objs, o) /\ n' = n + 1
Next == /\ n < 2
        /\ \/ \E ixs \in {<<1>>, <<2, 1>>} : Last.shape[1] = 2 /\ Grow(Select(Last, ixs))
           \/ \E st \in {0, 1} : LET o == Subset(Last, st, 3, 2) IN NS(o) > 0 /\ Grow(o)
           \/ \E f \in {"conj", "sq", "affine"} : Grow(Map(Last, f))
           \/ Len(Last.shape) = 1 /\ CovFits(Last, Last) /\ Grow(CovData(Last, Last))
           \/ Len(Last.shape) = 2 /\ Last.shape[1] = 2 /\ Grow(Lin(Last, <<<<1, -1>>, <<0, 2>>>>))
Spec == Init /\ [][Next]_vars

\* laws the definitions have to satisfy for every chain
VarReal == \A i \in 1..Len(objs) : LET v == Var(objs[i]) IN \A k \in 1..Len(v) : v[k].num[2] = 0 /\ v[k].num[1] >= 0
Hermitian == \A i \in 1..Len(objs) : LET K == NC(objs[i]) c == Covar(objs[i], objs[i]) IN
                \A k, l \in 1..K : c[(k - 1) * K + l].num = CConj(c[(l - 1) * K + k].num)
\* the mean of the covariance data is the covariance
CovMean == \A i \in 1..Len(objs) : (Len(objs[i].shape) = 1 /\ CovFits(objs[i], objs[i])) =>
              LET f == Covar(objs[i], objs[i]) g == Mean(CovData(objs[i], objs[i])) W == WT(objs[i]) IN
              \A k \in 1..Len(f), j \in {1, 2} : g[k].num[j] = f[k].num[j] * W
\* trace of the kernel is the summed variance
KernelTrace == \A i \in 1..Len(objs) : (Len(objs[i].shape) = 1 /\ KFits(objs[i])) =>
              LET o == objs[i] N == NS(o) K == Kernel(o) V == Var(o) IN
              SumSeq([j \in 1..N |-> K[(j - 1) * N + j].num[1]]) = WT(o) * SumSeq([k \in 1..NC(o) |-> V[k].num[1]])
=============================================================================
