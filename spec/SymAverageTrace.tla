-------------------------- MODULE SymAverageTrace --------------------------
EXTENDS SymAverage, TraceBase
Start(c) == 0
Step(c, s, e) == s
SetOf(q) == {q[i] : i \in 1..Len(q)}
H(c) == Group(c.dim, c.L, SetOf(c.sy), c.ex)
Plain(c) == {<<a, 0>> : a \in Elements(H(c))}
\* plain coefficient (no orbit): group of the identity
N(c) == Len(c.cfgs)
\* averages may carry one constant normalisation for all configurations: one or the inverse number of elements
ExpFails(c, e) ==
    LET GG == H(c) k == Cardinality(GG)
        F == Force([i \in 1..N(c) |-> PsiSum(GG, c.ca, c.cb, c.cfgs[i])])
        one == \A i \in 1..N(c) : CNear(e.out[i], CScale(1000, F[i]), 2)
        avg == \A i \in 1..N(c) : CNear(CScale(k, e.out[i]), CScale(1000, F[i]), 2 * k)
    IN IF one \/ avg THEN {} ELSE {"average"}
LogFails(c, e) ==
    LET GG == Plain(c) k == Cardinality(GG)
    IN IF \A i \in 1..N(c) : CNear(CScale(k, e.out[i]), CScale(1000, LogSum(GG, c.ca, c.cb, c.cfgs[i])), 2 * k) THEN {} ELSE {"average"}
\* e.out: exp(2 Re), cos(Im), sin(Im)
SepFails(c, e) ==
    LET GG == Plain(c) k == Cardinality(GG)
        ok(i) == LET r == SepSum(GG, c.ca, c.cb, c.cfgs[i]) o == e.out[i] IN
            /\ Near(k * o[1], 1000 * r.w, 2 * k)
            /\ (r.z # <<0, 0>> => Near(r.z[1] * o[3], r.z[2] * o[2], 3 * (Abs(r.z[1]) + Abs(r.z[2]) + 1)) /\ r.z[1] * o[2] + r.z[2] * o[3] > 0)
    IN IF \A i \in 1..N(c) : ok(i) THEN {} ELSE {"average"}
\* the real part handed to the samplers, recorded as modulus (exp, sep) or value (log)
RealFails(c, e) == IF \A i \in 1..N(c) : Near(e.sre[i], e.re[i], 2) THEN {} ELSE {"sampler-real-part"}
\* transformation of the recorded amplitudes: e.gout[q][i] belongs to configuration i moved by recorded group element q
CovFails(c, e) ==
    LET GG == IF c.mode = "exp" THEN H(c) ELSE Plain(c) IN
    IF \A qq \in 1..Len(e.mv) : LET g == [p |-> e.mv[qq].p, sg |-> e.mv[qq].sg] IN
         /\ g \in Elements(GG)
         /\ c.mode = "exp" => \A i \in 1..N(c) : CNear(CMul(UnitPow((CHOOSE x \in GG : x[1] = g)[2] \div 3), e.gout[qq][i]), e.out[i], 3)
         /\ c.mode = "log" => \A i \in 1..N(c) : CNear(e.gout[qq][i], e.out[i], 3)
         /\ c.mode = "sep" => \A i \in 1..N(c) : Near(e.gout[qq][i][1], e.out[i][1], 3)
    THEN {} ELSE {"transformation"}
Freq(n, cnt, m, T) == LET dev == cnt * T - n * m IN
    IF m = 0 THEN cnt = 0 ELSE IF m = T THEN cnt = n ELSE Abs(dev) < 40000 /\ dev * dev <= 49 * n * m * (T - m) + 50 * T * T
DirectFails(c, e) ==
    LET E == Elements(H(c)) T == Cardinality(E)
        m(t) == Cardinality({g \in E : Act(g, c.pat) = t})
    IN (IF \A i \in 1..Len(e.hist) : m(e.hist[i][1]) > 0 THEN {} ELSE {"orbit-of-plain-samples"})
       \cup (IF \A i \in 1..Len(e.hist) : Freq(e.n, e.hist[i][2], m(e.hist[i][1]), T) THEN {} ELSE {"uniform-over-orbit"})
       \cup (IF e.coeff THEN {} ELSE {"coefficients"})
Fails(c, s, e) ==
    CASE e.op = "sym" -> (CASE c.mode = "exp" -> ExpFails(c, e) [] c.mode = "log" -> LogFails(c, e) [] OTHER -> SepFails(c, e)) \cup RealFails(c, e) \cup CovFails(c, e)
      [] e.op = "two" -> IF \A i \in 1..N(c) : CNear(e.out[i], <<1000 * NA(c.ca, c.cfgs[i]), 1000 * NA(c.cb, c.cfgs[i])>>, 1) /\ Near(e.sre[i], 1000 * NA(c.ca, c.cfgs[i]), 1)
                         THEN {} ELSE {"two-networks"}
      [] e.op = "dsample" -> DirectFails(c, e)
      [] e.op = "initnet" -> (IF \A i \in 1..Len(e.a) : CNear(e.a[i], e.b[i], 2) THEN {} ELSE {"description"}) \cup (IF e.same THEN {} ELSE {"description-modified"})
TraceInit == TInit /\ dim = 0 /\ L = 0 /\ sy = 0 /\ ex = 0 /\ G = 0 /\ got = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
