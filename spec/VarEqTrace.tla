----------------------------- MODULE VarEqTrace -----------------------------
(* Recorded updates (ten-thousandths) and reports. The specification remembers the reports of the last  *)
(* call at stage zero.                                                                                   *)
EXTENDS VarEq, TraceBase
Start(c) == [rep |-> 0, set |-> 0, sh |-> c.h.sh, cv |-> c.h.cv, has |-> FALSE]
\* settings in effect: the shift and whether to cross-validate can be changed between calls
Now(s, e) == [s EXCEPT !.sh = IF e.nsh >= 0 THEN e.nsh ELSE s.sh, !.cv = IF e.ncv >= 0 THEN e.ncv = 1 ELSE s.cv]
Step(c, s, e) == LET n == Now(s, e) IN IF e.st = 0 THEN [n EXCEPT !.rep = e.rep, !.set = e.set, !.has = n.cv] ELSE n
U == 10000
RECURSIVE ISq(_, _, _)
ISq(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN ISq(x, mid, hi) ELSE ISq(x, lo, mid)
Sqrt(x) == ISq(x, 0, 46000)
D(c, e) == c.sets[e.set]
MaxAbs(v) == CHOOSE m \in {Abs(v[i]) : i \in 1..Len(v)} : \A i \in 1..Len(v) : Abs(v[i]) <= m
\* units per one of the update: coarser for large ones
Scale(v) == IF MaxAbs(v) <= 200000 THEN 1 ELSE 100
Lin(A, v, i) == SumTo([j \in 1..Len(v) |-> A[i][j] * v[j]], Len(v))
RowAbs(A, i) == SumTo([j \in 1..Len(A) |-> Abs(A[i][j])], Len(A))
Det2(A) == A[1][1] * A[2][2] - A[1][2] * A[2][1]
\* does the equation hold (singular antisymmetric 3x3 systems: up to the null direction)
EqFails(A, F, u) ==
    IF MaxAbs(u) > 20000000 THEN {"equation"}
    ELSE LET sc == Scale(u) v == Force([j \in 1..Len(u) |-> RDiv(u[j], sc)]) IN
         IF \A i \in 1..Len(u) : Near(Lin(A, v, i), (U \div sc) * F[i], RowAbs(A, i) + 2 + Abs(F[i]) \div 50) THEN {} ELSE {"equation"}
ImagFails(A, F, u) ==
    IF Len(u) = 2 THEN EqFails(A, F, u)
    ELSE IF MaxAbs(u) > 2000000 THEN {"equation"}
    ELSE LET z == <<A[2][3], -A[1][3], A[1][2]>>
             v == Force([j \in 1..3 |-> RDiv(u[j], 100)])     \* hundredths
             r == Force([i \in 1..3 |-> Lin(A, v, i) - 100 * F[i]])
             tol == 4 * (RowAbs(A, 1) + RowAbs(A, 2) + RowAbs(A, 3) + 3) * (MaxAbs(z) + 1)
         IN (IF \A i, j \in 1..3 : Near(r[i] * z[j], r[j] * z[i], tol) THEN {} ELSE {"equation"})
            \cup (IF Near(SumTo([j \in 1..3 |-> z[j] * v[j]], 3), 0, 2 * (RowAbs(A, 1) + RowAbs(A, 2) + 3)) THEN {} ELSE {"minimum-norm"})
\* null vector of dependent columns
NullFails(z, u) == IF MaxAbs(u) > 20000000 THEN {"minimum-norm"} ELSE IF Near(SumTo([j \in 1..Len(u) |-> z[j] * u[j]], Len(u)), 0, 6 + MaxAbs(u) \div 1000) THEN {} ELSE {"minimum-norm"}
\* ---- orthogonal designs: everything explicit. a_n: projected signal of parameter j (in quarters)
Sig(c, d1, j) == LET es == ESum(d1) IN Force([n \in 1..4 |-> CMul(<<-c.h.x[1], -c.h.x[2]>>, CMul(CConj(d1.g[n][j]), CSub(CScale(4, d1.E[n]), es)))[1]])
A1(s) == SumSeq(s)
B1(s) == LET a == A1(s) IN SumTo([n \in 1..4 |-> (4 * s[n] - a) * (4 * s[n] - a)], 4)
\* 1 + r^3 in hundredths for r in hundredths; 0: too large
Damp(r) == IF r > 1000 THEN 0 ELSE 100 + (r * r * r) \div 10000
Amp2(d1, j) == d1.g[1][j][1] * d1.g[1][j][1]
MaxAmp(d1) == CHOOSE m \in {Amp2(d1, j) : j \in 1..NP(d1)} : \A j \in 1..NP(d1) : Amp2(d1, j) <= m
OrthUpdate(c, d1, j) == \* expected update in ten-thousandths
    LET s == Sig(c, d1, j) a == A1(s) b == B1(s)
        snr == IF c.h.exact \/ c.h.tol = 0 THEN 100 ELSE IF a = 0 THEN 0 ELSE IF 100 * c.h.tol * c.h.tol > 2000000000 \div MaxI(b, 1) THEN 0 ELSE Damp((100 * c.h.tol * c.h.tol * b) \div (16 * a * a))
        p == Amp2(d1, j) q == MaxAmp(d1)
        cut == IF c.h.cut = 0 THEN 100 ELSE Damp((100 * q * q) \div (4 * p * p))
        plain == RDiv(2 * 625 * a, p * (2 + c.h.sh))
    IN IF snr = 0 \/ cut = 0 THEN 0 ELSE RDiv(RDiv(plain * 100, snr) * 100, cut)
OrthFails(c, d1, e) == IF \A j \in 1..NP(d1) : LET x == OrthUpdate(c, d1, j) IN Near(e.u[j], x, 30 + Abs(x) \div 40) THEN {} ELSE {"regularised-update"}
\* position of parameter j in the ascending spectrum
Pos(d1, j) == Cardinality({i \in 1..NP(d1) : Amp2(d1, i) <= Amp2(d1, j)})
OrthReports(c, d1, r) ==
    (IF \A j \in 1..NP(d1) : Near(2 * r.spec[Pos(d1, j)], Amp2(d1, j) * (2 + c.h.sh) * U, 8) THEN {} ELSE {"spectrum"})
    \cup (IF \A j \in 1..NP(d1) : LET s == Sig(c, d1, j) a == A1(s) b == B1(s) x == Sqrt((160000 * a * a) \div MaxI(b, 1)) IN
              IF b = 0 \/ Abs(a) > 115 THEN TRUE ELSE Near(r.snr[Pos(d1, j)], x, 2 + x \div 50) THEN {} ELSE {"signal-to-noise"})
    \cup (IF Near(r.cut, IF c.h.cut > 0 THEN c.h.cut * 100 ELSE 0, 81) /\ (c.h.cut > 0 => r.cut = c.h.cut * 100) THEN {} ELSE {"reported-cutoff"})
SpecFails(c, d1, A, r) == \* trace of the spectrum
    LET w2 == WSum(d1.k) * WSum(d1.k) IN
    IF Len(r.spec) = NP(d1) /\ MaxAbs(r.spec) < 1000000 /\ Near(2 * w2 * SumSeq(r.spec), U * SumTo([i \in 1..NP(d1) |-> A[i][i]], NP(d1)), 4 * w2 * NP(d1)) THEN {} ELSE {"spectrum"}
\* ---- energies
EnergyFails(c, d1, r) ==
    LET w == WSum(d1.k) IN
    (IF Near(w * r.mean, U * ESum(d1)[1], w) THEN {} ELSE {"energy-mean"})
    \cup (IF Near(w * w * r.var, U * Var2(d1), w * w) THEN {} ELSE {"energy-variance"})
\* ---- error: one plus (u S0 u - 2 u F0) over the variance, real parts; update in hundredths
ErrFails(c, d1, e) ==
    LET v == Force([j \in 1..Len(e.u) |-> RDiv(e.u[j], 100)]) IN
    IF MaxAbs(v) > 300 \/ Var2(d1) = 0 THEN {}
    ELSE LET n == Len(v)
             sv == Force([i \in 1..n |-> SumTo([j \in 1..n |-> S0(d1, i, j)[1] * v[j]], n)])
             quad == SumTo([i \in 1..n |-> v[i] * sv[i]], n)                          \* times 10000
             lin == 200 * SumTo([i \in 1..n |-> v[i] * F0(d1, c.h.x)[i][1]], n)       \* times 10000
             x == U * Var2(d1) + quad - lin
             slack == 200 + Var2(d1) * 4 + 2 * SumTo([i \in 1..n |-> Abs(sv[i]) + 100 * Abs(F0(d1, c.h.x)[i][1])], n)
         IN IF e.rep.err < 200000000 \div Var2(d1) /\ Near(e.rep.err * Var2(d1), Abs(x), slack) THEN {} ELSE {"reported-error"}
\* ---- residual: norm of (S u - F) over norm of F, in hundredths
ResFails(A, F, u, rr) ==
    IF MaxAbs(u) > 100000 THEN {}
    ELSE LET r == Force([i \in 1..Len(F) |-> RDiv(Lin(A, u, i) - U * F[i], 1000)])
             ff == Force([i \in 1..Len(F) |-> 10 * F[i]])
             nr == Sqrt(SumTo([i \in 1..Len(F) |-> r[i] * r[i]], Len(F)))
             nf == Sqrt(SumTo([i \in 1..Len(F) |-> ff[i] * ff[i]], Len(F)))
         IN IF nf < 100 \/ MaxAbs(r) > 20000 \/ MaxAbs(ff) > 20000 THEN {} ELSE IF Near(rr, (100 * nr) \div nf, 3 + (100 * RowAbs(A, 1)) \div nf) THEN {} ELSE {"reported-residual"}
\* ---- cross validation: the solution for every other sample (from the first, on each device), judged on the rest
PerDev(c) == c.h.N \div c.rd
Rest(c, d1) == LET pick(f) == LET ix == Force([i \in 1..((c.h.N \div PerDev(c)) * (PerDev(c) \div 2)) |-> ((i - 1) \div (PerDev(c) \div 2)) * PerDev(c) + 2 * ((i - 1) % (PerDev(c) \div 2)) + 2])
                              IN Force([i \in 1..Len(ix) |-> f[ix[i]]])
               IN [k |-> pick(d1.k), g |-> pick(d1.g), E |-> pick(d1.E)]
CrossFails(c, d1, e) ==
    IF PerDev(c) < 2 THEN {}
    ELSE LET d2 == Rest(c, d1) w == WSum(d1.k) w2 == WSum(d2.k)
             n == NP(d1)
             v == Force([j \in 1..n |-> RDiv(e.half.u[j], 100)])
             A == Lhs(d2, c.h.mr, c.h.sh) F == Rhs(d2, c.h.mr, c.h.x)
             sv == Force([i \in 1..n |-> SumTo([j \in 1..n |-> S0(d2, i, j)[1] * v[j]], n)])
             f2 == F0(d2, c.h.x)
             quad == SumTo([i \in 1..n |-> v[i] * (sv[i] - 200 * f2[i][1])], n)
             x == U * Var2(d1) + RDiv(quad, w2 * w2) * w * w
             slack == 200 + Var2(d1) * 4 + w * w * (2 + (2 * SumTo([i \in 1..n |-> Abs(sv[i]) + 100 * Abs(f2[i][1])], n)) \div (w2 * w2))
         IN IF MaxAbs(v) > 300 \/ Var2(d1) = 0 THEN {}
            ELSE (IF e.rep.err < 100 \/ (e.half.err < 200000000 \div Var2(d1) /\ Near(e.half.err * Var2(d1), Abs(x), slack)) THEN {} ELSE {"cross-validated-error"})
                 \cup (IF e.half.res < 0 \/ ResFails(A, F, e.half.u, e.half.res) = {} THEN {} ELSE {"cross-validated-residual"})
SameRep(a, b) == /\ Near(a.mean, b.mean, 1) /\ Near(a.var, b.var, 1) /\ Near(a.err, b.err, 2) /\ Near(a.res, b.res, 1) /\ Near(a.cut, b.cut, 1)
                 /\ Len(a.spec) = Len(b.spec) /\ \A i \in 1..Len(a.spec) : Near(a.spec[i], b.spec[i], 1)
                 /\ Len(a.snr) = Len(b.snr) /\ \A i \in 1..Len(a.snr) : Near(a.snr[i], b.snr[i], 1)
\* ---- matrix handed out: S (real or i times imaginary part), and products with the plain matrix
MatFails(c, d1, A, e) ==
    LET w2 == WSum(d1.k) * WSum(d1.k) n == NP(d1) IN
    (IF \A i, j \in 1..n : IF c.h.mr = "real" THEN Near(2 * w2 * e.S[i][j][1], U * A[i][j], 2 * w2) /\ Abs(e.S[i][j][2]) <= 1
                           ELSE Near(2 * w2 * e.S[i][j][2], U * A[i][j], 2 * w2) /\ Abs(e.S[i][j][1]) <= 1 THEN {} ELSE {"matrix"})
    \cup (IF \A i \in 1..n : LET x == CSumSeq([j \in 1..n |-> CScale(j, S0(d1, i, j))]) IN CNear(CScale(w2, e.sdot[i]), CScale(U, x), w2) THEN {} ELSE {"matrix-product"})
EquFails(c, d1, e) == \* get_sr_equation: prefactor one
    LET w2 == WSum(d1.k) * WSum(d1.k) n == NP(d1) F == Rhs(d1, c.h.mr, <<1, 0>>) IN
    IF \A i \in 1..n : Near(2 * w2 * e.srF[i][IF c.h.mr = "real" THEN 1 ELSE 2], U * F[i], 2 * w2) THEN {} ELSE {"sr-equation"}
\* small changes of the shift change the diagonal in proportion
ShiftFails(c, d1, e) == LET w2 == WSum(d1.k) * WSum(d1.k) n == NP(d1) r == IF c.h.mr = "real" THEN 1 ELSE 2 IN
    IF \A i, j \in 1..n : Abs(e.dS[i][j][3 - r]) <= 1 /\ Near(w2 * e.dS[i][j][r], IF i = j THEN 100 * Part(c.h.mr, S0(d1, i, i)) ELSE 0, w2) THEN {} ELSE {"small-shift"}
\* an ill-conditioned equation: rescaling a parameter only rescales its update
IllFails(e) == IF Fld(e, "ill") => \A j \in 1..Len(e.u) : Near(e.u[j], e.ill[j], 3 + Abs(e.u[j]) \div 1000) THEN {} ELSE {"rescaled-parameter"}
Orth(c) == c.h.des = "orth"
Tdvp(c, s, e) ==
    LET d1 == D(c, e) A == Lhs(d1, c.h.mr, c.h.sh) F == Rhs(d1, c.h.mr, c.h.x)
        plain == c.h.tol = 0 /\ c.h.cut = 0
    IN (IF Zero(A) THEN {} ELSE
         (IF Orth(c) THEN OrthFails(c, d1, e) ELSE {})
         \cup (IF ~plain THEN {} ELSE IF c.h.mr = "real" THEN EqFails(A, F, e.u) ELSE ImagFails(A, F, e.u))
         \cup (IF c.h.des = "dep" /\ c.h.mr = "real" /\ c.h.sh = 0 THEN NullFails(d1.z, e.u) ELSE {})
         \cup (IF e.st = 0 THEN ErrFails(c, d1, e) \cup ResFails(A, F, e.u, e.rep.res) \cup SpecFails(c, d1, A, e.rep) \cup (IF Orth(c) THEN OrthReports(c, d1, e.rep) ELSE {}) ELSE {}))
       \cup (IF e.st = 0 THEN EnergyFails(c, d1, e.rep) ELSE {})
       \cup (IF e.st = 0 THEN {} ELSE IF SameRep(e.rep, s.rep) THEN {} ELSE {"reports-of-first-stage"})
       \cup (IF \A j \in 1..Len(e.u) : Near(e.u[j], e.u2[j], 3 + Abs(e.u[j]) \div 1000) THEN {} ELSE {"cross-validation-update"})
       \cup (IF e.st = 0 THEN IF SameRep(e.rep, e.rep2) THEN {} ELSE {"cross-validation-reports"} ELSE {})
       \cup MatFails(c, d1, A, e) \cup EquFails(c, d1, e) \cup ShiftFails(c, d1, e) \cup IllFails(e)
\* ---- MinSR: S0 u = -C0 over the complex numbers, minimum norm
MinSr(c, s, e) ==
    LET d1 == D(c, e) n == NP(d1) w2 == WSum(d1.k) * WSum(d1.k)
        big == \E j \in 1..n : Abs(e.uc[j][1]) > 200000 \/ Abs(e.uc[j][2]) > 200000
        tol(i) == 2 * SumTo([j \in 1..n |-> Abs(S0(d1, i, j)[1]) + Abs(S0(d1, i, j)[2])], n) + 4
        zu == CSumSeq([j \in 1..n |-> CScale(d1.z[j], e.uc[j])])
    IN (IF big THEN {"equation"} ELSE IF \A i \in 1..n : CNear(CSumSeq([j \in 1..n |-> CMul(S0(d1, i, j), e.uc[j])]), CScale(-U, C0(d1, i)), tol(i)) THEN {} ELSE {"equation"})
       \cup (IF c.h.des # "dep" \/ big THEN {} ELSE IF CNear(zu, <<0, 0>>, 6) THEN {} ELSE {"minimum-norm"})
       \cup (IF e.st = 0 THEN EnergyFails(c, d1, e.rep) ELSE IF Near(e.rep.mean, s.rep.mean, 1) /\ Near(e.rep.var, s.rep.var, 1) THEN {} ELSE {"reports-of-first-stage"})
Crossed(c, s, e) == (IF e.cv = Step(c, s, e).has THEN {} ELSE {"cross-validation-setting"})
    \cup (IF e.st = 0 /\ e.cv THEN CrossFails(c, D(c, e), e) ELSE {})
Fails(c, s, e) == (IF c.h.kind = "minsr" THEN MinSr(c, s, e)
                   ELSE LET c2 == [c EXCEPT !.h.sh = Now(s, e).sh] IN Tdvp(c2, s, e) \cup Crossed(c2, s, e))
    \cup (IF e.tok THEN {} ELSE {"time-passed-on"})
TraceInit == TInit /\ d = 0 /\ phase = 0 /\ cur = 0 /\ rep = 0 /\ want = 0 /\ ret = 0 /\ calls = 0 /\ nset = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED avars]_<<avars, ci, li, ts, nev>>
=============================================================================
