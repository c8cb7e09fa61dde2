------------------------- MODULE SampledStatsTrace -------------------------
(* Recorded numbers are complex values times 100, flattened; res has one entry per process. The last *)
(* event of a case ("all") queries every object again: nothing may have changed.                     *)
EXTENDS SampledStats, TraceBase
Start(c) == <<>>
New(s, e) ==
    CASE e.op = "base" -> Base(e.K, e.lay, e.x, e.a)
      [] e.op = "select" -> Select(s[e.o], e.ixs)
      [] e.op = "subset" -> Subset(s[e.o], e.st, e.en, e.sp)
      [] e.op = "map" -> Map(s[e.o], e.f)
      [] e.op = "lin" -> Lin(Map(s[e.o], e.f), e.M)
      [] e.op = "covdata" -> CovData(s[e.o], s[e.p])
      [] e.op = "est" -> EstObj(e.lay, e.s, e.q, e.a)
Creates == {"base", "select", "subset", "map", "lin", "covdata", "est"}
\* asking an estimator at new parameters moves it there, and nothing else
Step(c, s, e) == IF e.op \in Creates THEN Append(s, New(s, e)) ELSE
                 IF e.op = "move" THEN [s EXCEPT ![e.o] = EstObj(e.lay, e.s, e.q, e.a)] ELSE s
QI(a, den) == 100 * (a \div den) + RDiv(100 * (a % den), den)
QF(f) == <<QI(f.num[1], f.den), QI(f.num[2], f.den)>>
Match(got, fs) == Len(got) = Len(fs) /\ \A i \in 1..Len(fs) : CNear(got[i], QF(fs[i]), 2)
AllMatch(e, per, fs) == \A r \in 1..Len(per) : Match(per[r], fs)
ObjFails(e, o, mean, var, shp, tag) ==
    (IF \A r \in 1..Len(shp) : shp[r] = o.shape THEN {} ELSE {tag \o "shape"})
    \cup (IF AllMatch(e, mean, Mean(o)) THEN {} ELSE {tag \o "mean"})
    \cup (IF AllMatch(e, var, Var(o)) THEN {} ELSE {tag \o "variance"})
RowFails(e, i, s) == ObjFails(e, s[i], [r \in 1..Len(e.all) |-> e.all[r][i].mean], [r \in 1..Len(e.all) |-> e.all[r][i].var],
                              [r \in 1..Len(e.all) |-> e.all[r][i].shape], "unchanged-")
\* a constant added to all observations moves the mean and nothing else
TwinFails(e, o) == IF \A r \in 1..Len(e.tw) : Match(e.tw[r][1], Mean(o)) /\ Match(e.tw[r][2], Var(o)) /\ Match(e.tw[r][3], Covar(o, o)) THEN {} ELSE {"constant-added"}
Fails(c, s, e) ==
    CASE e.op \in Creates -> ObjFails(e, New(s, e), e.mean, e.var, e.shape, e.op \o "-") \cup (IF e.op = "base" THEN TwinFails(e, New(s, e)) ELSE {})
      [] e.op = "covar" -> IF AllMatch(e, e.val, Covar(s[e.o], s[e.p])) THEN {} ELSE {"covariance"}
      [] e.op = "covvar" -> IF AllMatch(e, e.val, CovVar(s[e.o], s[e.p])) THEN {} ELSE {"covariance-variance"}
      [] e.op = "kernel" -> IF AllMatch(e, e.val, Kernel(s[e.o])) THEN {} ELSE {"overlap-matrix"}
      [] e.op = "move" -> ObjFails(e, EstObj(e.lay, e.s, e.q, e.a), e.mean, e.var, e.shape, "estimator-")
                          \cup (IF e.how # "grad" \/ AllMatch(e, e.grad, EstGrad(e.cpx, e.q, e.s, e.a)) THEN {} ELSE {"estimator-gradient"})
      [] e.op = "all" -> UNION {RowFails(e, i, s) : i \in 1..Len(s)}
      [] e.op = "grad" ->
           \* estimator p -> sum_k p_k^2 s_k + i sum_k p_k s_k s_1 ; log psi = sum_k k theta_k s_k + i(...)
           LET K == Len(e.p)
               N == Len(e.s)
               W == SumSeq([m \in 1..N |-> e.a[m]])
               est(m) == <<SumSeq([k \in 1..K |-> e.p[k] * e.p[k] * e.s[m][k]]), SumSeq([k \in 1..K |-> e.p[k] * e.s[m][k] * e.s[m][1]])>>
               E == CSumSeq([m \in 1..N |-> CScale(e.a[m], est(m))])
               dE(k) == CSumSeq([m \in 1..N |-> CScale(e.a[m], <<2 * e.p[k] * e.s[m][k], e.s[m][k] * e.s[m][1]>>)])
               cov(k) == CSumSeq([m \in 1..N |-> CScale(e.a[m] * 2 * k * e.s[m][k], CSub(CScale(W, est(m)), E))])
               g == [k \in 1..K |-> Frac(CAdd(cov(k), CScale(W, dE(k))), W * W)]
           IN (IF AllMatch(e, e.mean, <<Frac(E, W)>>) THEN {} ELSE {"estimator-mean"})
              \cup (IF AllMatch(e, e.grad, g) THEN {} ELSE {"estimator-gradient"})
TraceInit == TInit /\ objs = <<>> /\ n = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
