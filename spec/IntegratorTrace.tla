-------------------------- MODULE IntegratorTrace --------------------------
(* Recorded integration steps. Values and times are in millionths, results of the right hand side are  *)
(* integers. dt0 is the step size the integrator held before, dt the one it returned, dtn afterwards.   *)
EXTENDS Integrator, TraceBase
Sch(c) == IF c.h.sch = "adaptiveN" THEN "adaptive" ELSE c.h.sch
M == 1000000
\* the state of the specification: the step size the integrator will use, in millionths
Start(c) == [dt |-> c.h.dt * 10000]
Step(c, s, e) == [dt |-> e.dtn]
Max(c) == c.h.mx * 10000
S(c) == NStages(Sch(c))
\* combination of integer results: sum of co[i] * k[i][j] * dt / 4
Comb(co, k, off, j, dd) == LET m == SumTo([i \in 1..Len(co) |-> co[i] * k[off + i].k[j]], Len(co)) IN RDiv(m * (dd \div 100), 4) * 100 + RDiv(m * (dd % 100), 4)
Lin(e, co, off, j, dd) == e.y0[j] + Comb(co, e.calls, off, j, dd)
N(e) == Len(e.y0)
PassFails(c, e, p, dd) == \* trial number p with step dd
    LET off == (p - 1) * S(c) IN
    UNION {LET k == e.calls[off + i] IN
        (IF k.i = i - 1 THEN {} ELSE {"stage-number"})
        \cup (IF Near(k.t, e.t + (StageT(Sch(c))[i] * dd) \div 2, 3) THEN {} ELSE {"stage-time"})
        \cup (IF k.args = e.args THEN {} ELSE {"arguments"})
        \cup (IF \A j \in 1..N(e) : Near(k.y[j], Lin(e, StageY(Sch(c))[i], off, j, dd), 300) THEN {} ELSE {"stage-point"}) : i \in 1..S(c)}
\* step sizes of the trials, following the scripted errors
RECURSIVE Dts(_, _, _, _)
Dts(c, e, p, dd) == IF p > Len(e.errs) THEN <<dd>> ELSE <<dd>> \o Dts(c, e, p + 1, NextDt(dd, e.errs[p][1], e.errs[p][2], Max(c)))
Rel(a, b) == Near(a, b, 4 + b \div 5000)
Trials(c, e) == Len(e.calls) \div S(c)
AdaptiveFails(c, s, e) ==
    LET first == MinI(s.dt, Max(c))
        d == Dts(c, e, 1, first)    \* expected sizes, one more than scripted errors
        n == Trials(c, e)
        \* measured sizes of the trials: time of the second stage minus initial time
        m(p) == e.calls[(p - 1) * S(c) + 2].t - e.t
    IN IF Len(e.calls) # n * S(c) \/ n = 0 \/ n # Len(e.errs) THEN {"trials"}
       ELSE (IF \A p \in 1..n : Rel(m(p), d[p]) THEN {} ELSE {"trial-size"})
            \cup (IF \A p \in 1..(n - 1) : ~Accept(e.errs[p][1], e.errs[p][2]) THEN {} ELSE {"repeats-accepted"})
            \cup (IF Accept(e.errs[n][1], e.errs[n][2]) THEN {} ELSE {"accepts-too-large-error"})
            \cup (IF Near(e.dt, m(n), 3) THEN {} ELSE {"returned-step"})
            \cup (IF Rel(e.dtn, d[n + 1]) /\ e.dtn <= Max(c) + 1 THEN {} ELSE {"next-step"})
            \cup (IF \A j \in 1..N(e) : \A p \in 1..n : LET x == Comb(ErrCo, e.calls, (p - 1) * S(c), j, m(p)) IN Near(Abs(e.diffs[p][j]), Abs(x), 300) THEN {} ELSE {"error-estimate"})
            \cup UNION {PassFails(c, e, p, m(p)) : p \in 1..n}
            \cup (IF \A j \in 1..N(e) : Near(e.y1[j], Lin(e, Result("adaptive"), (n - 1) * S(c), j, m(n)), 300) THEN {} ELSE {"result"})
\* default norm: recompute the error from the results. In hundredths: square root of the sum of squares
RECURSIVE ISq(_, _, _)
ISq(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= x THEN ISq(x, mid, hi) ELSE ISq(x, lo, mid)
Norm100(e, off) == LET n2 == SumTo([j \in 1..N(e) |-> LET m == SumTo([i \in 1..5 |-> ErrCo[i] * e.calls[off + i].k[j]], 5) IN m * m], N(e)) IN ISq(n2 * 10000, 0, 46000)
Cube(x) == x * x * x
NormFails(c, s, e) ==
    LET n == Trials(c, e)
        m(p) == e.calls[(p - 1) * S(c) + 2].t - e.t
        \* error in millionths: dt / 4 * norm; tolerance in millionths
        er(p) == LET x == Norm100(e, (p - 1) * S(c)) IN IF m(p) < 100000 THEN (m(p) * x) \div 400 ELSE ((m(p) \div 100) * x) \div 4
        tol == c.h.tol * 1000
        nxt(p) == IF p < n THEN m(p + 1) ELSE e.dtn
        r(p) == (nxt(p) \div 10) \div MaxI(1, m(p) \div 1000)          \* factor in hundredths
        sl(p) == 2 + (r(p) * 1000) \div MaxI(1, m(p))
        \* (factor / 0.9)^3 is tolerance over error; both sides in hundredths (large ones need no comparison: clipped)
        up(p) == Cube((10 * (r(p) + sl(p))) \div 9) \div 10000
        dn(p) == Cube(MaxI(0, (10 * (r(p) - sl(p))) \div 9)) \div 10000
        fe(p) == IF er(p) = 0 THEN 2000 ELSE MinI(2000, (tol * 100) \div er(p))
        capped(p) == nxt(p) >= Max(c) - 2
    IN IF Len(e.calls) # n * S(c) \/ n = 0 THEN {"trials"}
       ELSE (IF Near(m(1), MinI(s.dt, Max(c)), 3) THEN {} ELSE {"trial-size"})
            \cup (IF \A p \in 1..(n - 1) : er(p) + er(p) \div 500 + 200 >= tol THEN {} ELSE {"repeats-accepted"})
            \cup (IF er(n) <= tol + tol \div 500 + 200 THEN {} ELSE {"accepts-too-large-error"})
            \cup (IF \A p \in 1..n : IF m(p) < 3000 THEN TRUE ELSE
                        /\ nxt(p) <= Max(c) + 1
                        /\ IF capped(p) THEN TRUE ELSE r(p) >= 20 - sl(p) /\ r(p) <= 200 + sl(p)
                             /\ (r(p) > 20 + sl(p) => dn(p) <= fe(p) + fe(p) \div 50 + 1)
                             /\ (r(p) < 200 - sl(p) => up(p) + up(p) \div 50 + 1 >= fe(p))
                        /\ (capped(p) /\ 5 * Max(c) > 11 * m(p) => FALSE)
                  THEN {} ELSE {"step-size-factor"})
            \cup (IF Near(e.dt, m(n), 3) THEN {} ELSE {"returned-step"})
            \cup UNION {PassFails(c, e, p, m(p)) : p \in 1..n}
            \cup (IF \A j \in 1..N(e) : Near(e.y1[j], Lin(e, Result("adaptive"), (n - 1) * S(c), j, m(n)), 300) THEN {} ELSE {"result"})
FixedFails(c, s, e) ==
    LET dd == IF e.dtarg > 0 THEN e.dtarg ELSE s.dt IN
    IF Len(e.calls) # S(c) THEN {"stages"}
    ELSE PassFails(c, e, 1, dd)
         \cup (IF e.dt = dd /\ e.dtn = s.dt THEN {} ELSE {"returned-step"})
         \cup (IF \A j \in 1..N(e) : Near(e.y1[j], Lin(e, Result(Sch(c)), 0, j, dd), 300) THEN {} ELSE {"result"})
\* newdt: the step size was set to this value before the step
Now(s, e) == IF e.newdt > 0 THEN [dt |-> e.newdt] ELSE s
Fails(c, s, e) == (IF e.kept THEN {} ELSE {"values-modified"})
    \cup (CASE c.h.sch = "adaptive" -> AdaptiveFails(c, s, e) [] c.h.sch = "adaptiveN" -> NormFails(c, s, e) [] OTHER -> FixedFails(c, Now(s, e), e))
TraceInit == TInit /\ sch = 0 /\ mx = 0 /\ dt = 0 /\ start = 0 /\ stage = 0 /\ trial = 0 /\ steps = 0 /\ log = 0 /\ q = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
