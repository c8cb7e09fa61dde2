--------------------------- MODULE LocalEstTrace ---------------------------
(* psi(s) = 2^(th.s) i^(ph.s); an event holds the estimators (times 100) of all configurations and,   *)
(* for the differentiable function, those for the parameters epar.                                    *)
EXTENDS OpStrings, TraceBase
Start(c) == <<>>
OpOf(t) == IF t.name = "custom" THEN [site |-> t.site, map |-> t.map, me |-> t.me, diag |-> t.diag, f |-> FALSE] ELSE Loc(t.name, t.site)
StrOf(x) == LET p == SelectSeq(x.a, LAMBDA t : t.t # "op")
                o == SelectSeq(x.a, LAMBDA t : t.t = "op")
            IN [pre |-> [i \in 1..Len(p) |-> IF p[i].t = "num" THEN [kind |-> "num", v |-> p[i].v, w |-> Z0] ELSE [kind |-> "fun", v |-> p[i].v, w |-> p[i].w]],
                ops |-> [i \in 1..Len(o) |-> OpOf(o[i])]]
Step(c, s, e) == IF e.op = "add" THEN s \o [i \in 1..Len(e.strs) |-> StrOf(e.strs[i])] ELSE s
Dot(a, s) == SumSeq([i \in 1..Len(s) |-> a[i] * s[i]])
IPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
KK == 8
\* estimator times 2^KK
Eloc(st, s, args, par) ==
    CSumSeq([i \in 1..Len(st) |-> LET r == StrOn(st[i], s, args) IN
        IF r.m = Z0 THEN Z0 ELSE CScale(Pow(2, KK + Dot(par.th, r.s) - Dot(par.th, s)), CMul(r.m, IPow(Dot(par.ph, r.s) - Dot(par.ph, s))))])
Q(z) == <<RDiv(100 * z[1], 256), RDiv(100 * z[2], 256)>>
Fails(c, s, e) ==
    IF e.op # "eloc" THEN {}
    ELSE LET M == Len(e.cfgs) IN
         (IF Len(e.out) = M /\ \A i \in 1..M : CNear(e.out[i], Q(Eloc(s, e.cfgs[i], e.args, e.par)), 2) THEN {} ELSE {"local-estimator"})
         \cup (IF Len(e.est) = M /\ \A i \in 1..M : CNear(e.est[i], Q(Eloc(s, e.cfgs[i], e.args, e.epar)), 2) THEN {} ELSE {"estimator-function"})
TraceInit == TInit /\ strs = <<>> /\ cur = <<>>
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
