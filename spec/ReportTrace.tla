--------------------------- MODULE ReportTrace ---------------------------
(* Means and variances are recorded in units of 1/1000, errors in 1/100, parameters of real searches   *)
(* in 10^-6. c.i is the generated case; c.kind its kind; R the number of processes.                     *)
EXTENDS Report, TraceBase
\* ---- estimator of an operator, times four (ratios of amplitudes are powers of two)
Sign(x, z) == IF SumSeq([i \in 1..Len(x) |-> z[i] * (1 - x[i])]) % 2 = 0 THEN 1 ELSE -1
\* string: Sz on the sites of z, flip of another site t.x
Flip(x, k) == Force([i \in 1..Len(x) |-> IF i = k THEN 1 - x[i] ELSE x[i]])
\* four times the ratio psi(flipped)/psi(x); amplitudes 2^(th.x), entries of th between -2 and 2
Ratio4(th, x, k) == LET a == th[k] * (1 - 2 * x[k]) IN Pow(2, a + 2)
TermVal(th, x, t, pre) == CScale(pre * Sign(x, t.z) * (IF t.x = 0 THEN 4 ELSE Ratio4(th, x, t.x)), t.c)
Prefactor(o) == IF Len(o.args) = 0 THEN 1 ELSE IF Len(o.args) = 1 THEN o.args[1] ELSE o.args[1] - o.args[2]
\* four times the estimator
Est4(th, x, o) == CSumSeq([i \in 1..Len(o.terms) |-> TermVal(th, x, o.terms[i], Prefactor(o))])
Unit == 4

Amp2(th, x) == SumSeq([i \in 1..Len(x) |-> th[i] * x[i]])
Neg(th) == SumSeq([i \in 1..Len(th) |-> IF th[i] < 0 THEN -th[i] ELSE 0])
WeightOf(th, x, k) == Pow(Pow(2, k), Amp2(th, x) + Neg(th))
AllX(L) == Force([j \in 1..Pow(2, L) |-> Force([i \in 1..L |-> ((j - 1) \div Pow(2, L - i)) % 2])])

\* expected statistics in recorded units for weights w and values f (f in units of 1/u)
ExpMean(w, f, u) == Quot(M1(w, f), WSum(w) * u, 1000)
ExpVar(w, re, im, u) == Quot(VNum(w, re, im), WSum(w) * WSum(w), 1000) \div (u * u)
VarUnder(v, x, u) == Near(v, x, 2 + (v \div 100000))
ErrOk(e, v, nn, exact) == IF exact THEN e = 0 ELSE Abs(e) < 20000 /\ v < 1000000 /\ e >= 0 /\ Abs(e * e * nn - 10 * v) <= (2 * e + 1) * nn + 20
Stat(w, re, im, u, m, v, e, nn, exact) ==
    (IF Near(m, ExpMean(w, re, u), 2) THEN {} ELSE {"mean"})
    \cup (IF VarUnder(v, ExpVar(w, re, im, u), u) THEN {} ELSE {"variance"})
    \cup (IF ErrOk(e, v, nn, exact) THEN {} ELSE {"error"})
\* all operators of one entry; xs the configurations with weights w
Entry(th, xs, w, o, r, nn, exact) ==
    IF Len(r.mean) # Len(o.ops) \/ Len(r.var) # Len(o.ops) \/ Len(r.err) # Len(o.ops) THEN {"list-length"}
    ELSE UNION {LET f == Force([i \in 1..Len(xs) |-> Est4(th, xs[i], o.ops[k])])
                    re == Force([i \in 1..Len(xs) |-> f[i][1]]) im == Force([i \in 1..Len(xs) |-> f[i][2]])
                IN Stat(w, re, im, Unit, r.mean[k], r.var[k], r.err[k], nn, exact) : k \in 1..Len(o.ops)}
NameSet(obs) == {obs[k].name : k \in 1..Len(obs)}
FlatData(data) == Flat([r \in 1..Len(data) |-> Flat(data[r])])
MeasureFails(c, e) ==
    LET i == c.i th == i.th L == i.L
        d == FlatData(i.data)
        xs == IF i.smp = "stub" THEN Force([k \in 1..Len(d) |-> d[k][1]]) ELSE IF i.smp = "exact" THEN AllX(L) ELSE Flat(e.cfgs)
        w == IF i.smp = "stub" THEN Force([k \in 1..Len(d) |-> d[k][2]])
             ELSE IF i.smp = "exact" THEN Force([k \in 1..Len(xs) |-> WeightOf(th, xs[k], 2)])
             ELSE Force([k \in 1..Len(xs) |-> WeightOf(th, xs[k], 2 - i.mu)])
    IN (IF e.calls = <<i.num>> THEN {} ELSE {"one-sample"})
       \cup (IF {e.names[k] : k \in 1..Len(e.names)} = NameSet(i.obs) /\ Len(e.names) = Len(i.obs) THEN
                 UNION {Entry(th, xs, w, i.obs[k], e.rep[k], Len(xs), i.smp = "exact") : k \in 1..Len(i.obs)}
             ELSE {"names"})
One(f) == Force([k \in 1..Len(f) |-> 0])
PovmFails(c, e) ==
    LET i == c.i L == i.L nn == IF i.dim = 1 THEN L ELSE L * L
        d == FlatData(i.data)
        w == Force([k \in 1..Len(d) |-> d[k][2]])
        names == UNION {{i.obs[k].name} \cup {i.obs[k].name \o "_corr_L" \o ToString(l) : l \in 0..(L - 1)} : k \in 1..Len(i.obs)}
        single(k) == LET v == i.obs[k].v f == Force([j \in 1..Len(d) |-> SiteSum(v, d[j][1])]) r == e.rep[k] IN
            Stat(w, f, One(f), nn, r.mean[1], r.var[1], r.err[1], Len(d), i.inf)
        corr(k, l) == LET v == i.obs[k].v s == Force([j \in 1..Len(d) |-> SiteSum(v, d[j][1])])
                          f == Force([j \in 1..Len(d) |-> CorrSum(i.dim, L, v, d[j][1], l)]) r == e.cor[k][l + 1] W == WSum(w)
                          ex == Quot(W * nn * M1(w, f) - M1(w, s) * M1(w, s), W * W * nn * nn, 1000) IN
            (IF Near(r.mean[1], ex, 2) THEN {} ELSE {"correlator"})
            \cup (IF VarUnder(r.var[1], ExpVar(w, f, One(f), nn), nn) THEN {} ELSE {"correlator-variance"})
            \cup (IF ErrOk(r.err[1], r.var[1], Len(d), i.inf) THEN {} ELSE {"correlator-error"})
    IN (IF e.calls = (IF i.given THEN <<>> ELSE <<0>>) THEN {} ELSE {"one-sample"})
       \cup (IF {e.names[k] : k \in 1..Len(e.names)} = names THEN {} ELSE {"names"})
       \cup UNION {single(k) : k \in 1..Len(i.obs)}
       \cup UNION {corr(k, l) : k \in 1..Len(i.obs), l \in 0..(L - 1)}
\* ---- searches: state = [k |-> steps so far, th |-> parameters, vs |-> variances, shift |-> shift relative to the initial one in 10^-6]
Start(c) == IF c.kind = "search" THEN [k |-> 0, th |-> c.i.th, hist |-> <<c.i.th>>, shift |-> 1000000, go |-> TRUE]
            ELSE [k |-> 0, th |-> <<>>, hist |-> <<>>, shift |-> 1000000, go |-> TRUE]
Decay(x) == RDiv(x * 95, 100)
VarsOf(i) == Force([k \in 1..Len(i.script) |-> i.script[k].var])
Step(c, s, e) ==
    IF e.op = "step" /\ s.k < Len(c.i.script) THEN LET u == c.i.script[s.k + 1].u t == Force([j \in 1..2 |-> s.th[j] + (u[j] \div 2)]) IN
        [s EXCEPT !.k = @ + 1, !.th = t, !.hist = Append(@, t), !.shift = IF c.i.shift THEN Decay(@) ELSE @]
    ELSE IF e.op = "rstep" THEN [s EXCEPT !.k = @ + 1, !.th = Force([j \in 1..Len(e.y) |-> e.y[j] + e.u[j]]), !.shift = IF c.i.eq = "tdvp" THEN Decay(@) ELSE @, !.go = e.above]
    ELSE s
SameVec(a, b, t) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Near(a[j], b[j], t)
Th1000(t) == Force([j \in 1..Len(t) |-> 1000 * t[j]])
Fails(c, s, e) ==
    CASE e.op = "measure" -> MeasureFails(c, e)
      [] e.op = "povm" -> PovmFails(c, e)
      [] e.op = "step" ->
           (IF s.k < NumSteps(VarsOf(c.i), c.i.lim, c.i.tol) THEN {} ELSE {"step-count"})
           \cup (IF SameVec(e.y, Th1000(s.th), 0) /\ SameVec(e.psi, Th1000(s.th), 0) THEN {} ELSE {"step-parameters"})
           \cup (IF Near(e.shift, s.shift, 3) THEN {} ELSE {"step-shift"})
           \cup (IF e.ham THEN {} ELSE {"step-hamiltonian"})
      [] e.op = "end" ->
           LET i == c.i xs == AllX(2) rec0 == i.out /\ Len(i.obs) > 0 IN
           (IF s.k = NumSteps(VarsOf(i), i.lim, i.tol) THEN {} ELSE {"step-count"})
           \cup (IF SameVec(e.par, Th1000(s.th), 0) THEN {} ELSE {"update-applied"})
           \cup (IF Near(e.shift, s.shift, 3) THEN {} ELSE {"shift"})
           \cup (IF ~rec0 THEN {}
                 ELSE IF SameVec(e.times, [k \in 1..(s.k + 1) |-> 1000 * (k - 1)], 0) /\ \A o \in 1..Len(i.obs) : Len(e.obs[o]) = s.k + 1 THEN
                     UNION {LET th == s.hist[k] w == Force([j \in 1..Len(xs) |-> WeightOf(th, xs[j], 2)]) IN
                            UNION {Entry(th, xs, w, i.obs[o], e.obs[o][k], 4, TRUE) : o \in 1..Len(i.obs)} : k \in 1..(s.k + 1)}
                 ELSE {"records"})
      [] e.op = "rstep" ->
           (IF s.go THEN {} ELSE {"step-count"})
           \cup (IF s.k = 0 \/ SameVec(e.y, s.th, 3) THEN {} ELSE {"step-parameters"})
           \cup (IF Near(e.shift, s.shift, 3) THEN {} ELSE {"step-shift"})
           \cup (IF s.k < c.i.lim THEN {} ELSE {"step-count"})
      [] e.op = "rend" ->
           (IF s.k = c.i.lim \/ ~s.go THEN {} ELSE {"step-count"})
           \cup (IF SameVec(e.par, IF s.k = 0 THEN e.first ELSE s.th, 3) THEN {} ELSE {"update-applied"})
           \cup (IF Near(e.shift, s.shift, 3) THEN {} ELSE {"shift"})
           \cup (IF ~c.i.out \/ SameVec(e.times, [k \in 1..(s.k + 1) |-> 1000 * (k - 1)], 0) THEN {} ELSE {"records"})
      [] OTHER -> {"unknown-event"}
TraceInit == TInit /\ lim = 0 /\ tol = 0 /\ rec = FALSE /\ pc = "x" /\ n = 0 /\ seen = <<>> /\ ver = 0 /\ shift = 0 /\ used = <<>> /\ log = <<>>
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
