--------------------------- MODULE EvolutionTrace ---------------------------
(* Recorded motion of a complete ansatz: u (re, im parts per configuration, hundredths), the numbers   *)
(* of occurrences of the configurations in the sample, the reported energy and its variance.           *)
EXTENDS OpStrings, TraceBase
P == INSTANCE PovmTerms WITH N <- 1, MaxTerms <- 1, MaxSize <- 1, terms <- 0, phase <- 0, left <- 0, site <- 0, size <- 0, groups <- 0, todo <- 0
Start(c) == <<>>
OpOf(t) == IF t.name = "custom" THEN [site |-> t.site, map |-> t.map, me |-> t.me, diag |-> t.diag, f |-> FALSE] ELSE Loc(t.name, t.site)
StrOf(x) == LET p == SelectSeq(x.a, LAMBDA t : t.t # "op")
                o == SelectSeq(x.a, LAMBDA t : t.t = "op")
            IN [pre |-> [i \in 1..Len(p) |-> IF p[i].t = "num" THEN [kind |-> "num", v |-> p[i].v, w |-> Z0] ELSE [kind |-> "fun", v |-> p[i].v, w |-> p[i].w]],
                ops |-> [i \in 1..Len(o) |-> OpOf(o[i])]]
Step(c, s, e) == IF e.op = "add" THEN s \o (IF c.h.kind = "povm" THEN e.strs ELSE [i \in 1..Len(e.strs) |-> StrOf(e.strs[i])]) ELSE s
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
N(c) == Prod(c.h.shape)
NC(c) == Pow(c.h.L, N(c))
\* configurations are numbered, the first site most significant
RECURSIVE IdxTo(_, _, _)
IdxTo(L, s, k) == IF k = 0 THEN 0 ELSE L * IdxTo(L, s, k - 1) + s[k]
Idx(c, s) == 1 + IdxTo(c.h.L, s, Len(s))
Cfg(c, i) == Force([k \in 1..N(c) |-> ((i - 1) \div Pow(c.h.L, N(c) - k)) % c.h.L])
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
\* estimator times four
Eloc(c, st, i, e) == LET s == Cfg(c, i) IN IF c.h.kind = "povm" THEN CSumSeq([j \in 1..NC(c) |-> <<Pow(2, 2 + e.th[j] - e.th[i]) * P!Element(st, s, Cfg(c, j)), 0>>]) ELSE
    CSumSeq([k \in 1..Len(st) |-> LET r == StrOn(st[k], s, <<e.t>>) IN
        IF r.m = Z0 THEN Z0 ELSE LET j == Idx(c, r.s) IN CScale(Pow(2, 2 + e.th[j] - e.th[i]), CMul(r.m, IPow(e.ph[j] - e.ph[i])))])
\* motion of configuration i: average over the translates for a symmetrised ansatz (times their number)
RECURSIVE Rots(_, _, _)
Rots(c, i, k) == IF k = 0 THEN <<>> ELSE LET j == 1 + ((2 * (i - 1)) % NC(c)) + ((2 * (i - 1)) \div NC(c)) IN Append(Rots(c, j, k - 1), i)
Prob(c) == c.h.kind \in {"prob", "povm"}
Mult(c) == IF c.h.kind = "sym" THEN N(c) ELSE 1
Big(z) == Abs(z[1]) > 50000 \/ Abs(z[2]) > 50000
Motion(c, e, i) == IF c.h.kind # "sym" THEN e.u[i] ELSE LET r == Rots(c, i, N(c)) IN CSumSeq([k \in 1..Len(r) |-> IF Big(e.u[r[k]]) THEN <<50000, 50000>> ELSE e.u[r[k]]])
Fails(c, s, e) ==
    IF e.op # "move" THEN {}
    ELSE LET E == Force([i \in 1..NC(c) |-> Eloc(c, s, i, e)])
             sup == {i \in 1..NC(c) : e.cnt[i] > 0}
             i0 == CHOOSE i \in sup : TRUE
             m == Mult(c)
             x == <<-c.h.x[1], -c.h.x[2]>>
             \* weights of the sample: exact 4^th (2^th for probabilities), otherwise occurrences reweighted
             pw == IF c.h.sam = "exact" THEN (IF Prob(c) THEN 1 ELSE 2) ELSE IF Prob(c) THEN 0 ELSE 2 - c.h.mu
             k == Force([i \in 1..NC(c) |-> (IF c.h.sam = "exact" THEN MinI(1, e.cnt[i]) ELSE e.cnt[i]) * Pow(2, pw * (e.th[i] + 1))])
             W == SumSeq(k)
             ES == CSumSeq([i \in 1..NC(c) |-> CScale(k[i], E[i])])
             \* deviations in tenths
             mean10 == <<RDiv(10 * ES[1], 4 * W), RDiv(10 * ES[2], 4 * W)>>
             dev == Force([i \in 1..NC(c) |-> LET z == CSub(<<RDiv(10 * E[i][1], 4), RDiv(10 * E[i][2], 4)>>, mean10) IN z[1] * z[1] + z[2] * z[2]])
             v100 == RDiv(SumTo([i \in 1..NC(c) |-> k[i] * dev[i]], NC(c)), W)
         IN (IF Len(e.u) = NC(c) /\ (\A i \in sup : ~Big(e.u[i])) /\ \A i \in sup : LET z == CScale(25 * m, CMul(x, CSub(E[i], E[i0]))) IN CNear(CSub(Motion(c, e, i), Motion(c, e, i0)), z, 3 * m)
             THEN {} ELSE {"exact-motion"})
            \cup (IF c.h.sam = "exact" => sup = 1..NC(c) THEN {} ELSE {"all-configurations"})
            \cup (IF Near(W * e.mean, 25 * ES[1], 2 * W) THEN {} ELSE {"energy"})
            \cup (IF Near(e.var, v100, 30 + v100 \div 10) THEN {} ELSE {"energy-variance"})
            \cup (IF e.kept THEN {} ELSE {"parameters-kept"})
TraceInit == TInit /\ strs = <<>> /\ cur = <<>>
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
