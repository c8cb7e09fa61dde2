------------------------- MODULE FeedForwardTrace -------------------------
(* Network outputs are recorded in units of 1/100 (times the root of the number of summed entries for    *)
(* convolutional networks), Boltzmann machines in 10^-5, phases in 1/1000 of a quarter turn.             *)
EXTENDS FeedForward, TraceBase
Start(c) == 0
Step(c, s, e) == s
\* logarithms of cosh and sinh of integers in units of 10^-5
LCT == <<0, 43378, 132500, 230933, 330719, 430690, 530686, 630685, 730685, 830685, 930685, 1030685>>
LST == <<16144, 128837, 230437, 330652, 430681, 530685, 630685, 730685, 830685, 930685, 1030685>>
LogCosh(x) == IF Abs(x) <= 11 THEN LCT[Abs(x) + 1] ELSE 100000 * Abs(x) - 69315
LogSinh(x) == IF Abs(x) <= 11 THEN LST[Abs(x)] ELSE 100000 * Abs(x) - 69315
\* hidden unit with argument z[1] + i z[2] pi/2
HRe(z) == IF z[2] % 2 = 0 THEN LogCosh(z[1]) ELSE LogSinh(z[1])
HPh(z) == z[2] + IF z[2] % 2 # 0 /\ z[1] < 0 THEN 2 ELSE 0
Hidden(i, x) == Force([j \in 1..i.h |-> CAdd(<<i.big * i.b[j][1], i.b[j][2]>>, CSumSeq([k \in 1..Len(x) |-> CScale(IF i.kind = "nospin" THEN x[k] ELSE 2 * x[k] - 1, <<i.big * i.w[k][j][1], i.w[k][j][2]>>)]))])
Regular(z) == \A j \in 1..Len(z) : z[j][2] % 2 = 0 \/ z[j][1] # 0
\* (the phase is only defined modulo a full turn, and modulo pi for signs of real amplitudes it is exact)
PhaseNear(p, x) == LET r == (p - 1000 * x) % 4000 IN r <= 3 \/ r >= 3997
RbmFails(i, e) == UNION {LET z == Hidden(i, i.cfgs[k]) IN IF ~Regular(z) THEN {} ELSE
        (IF Near(e.re[k], SumSeq([j \in 1..i.h |-> HRe(z[j])]), 5) THEN {} ELSE {"amplitude"})
        \cup (IF PhaseNear(e.ph[k], SumSeq([j \in 1..i.h |-> HPh(z[j])])) THEN {} ELSE {"phase"}) : k \in 1..Len(i.cfgs)}
ValFails(v, x) == IF Near(v[1], 100 * x[1], 2) /\ Near(v[2], 100 * x[2], 2) THEN {} ELSE {"value"}
ConvFailsFor(i, v, ls) == UNION {ValFails(v[k], TotalOf(ConvNet(Spins(i.cfgs[k]), i.sh, ls, 1))) : k \in 1..Len(i.cfgs)}
\* (what the complex network does with periodic boundaries is an open finding, see translate; it does that or what it should)
ConvFails(i, e) == LET f == ConvFailsFor(i, e.v, i.ls) IN
    IF f # {} /\ i.kind = "cpxcnn" /\ i.per THEN ConvFailsFor(i, e.v2, Periodic(i.ls)) ELSE f
DenseFails(i, e) == UNION {ValFails(e.v[k], CSumSeq(DenseNet(Force([j \in 1..Len(i.cfgs[k]) |-> <<2 * i.cfgs[k][j] - 1, 0>>]), i.ls, 1))) : k \in 1..Len(i.cfgs)}
\* ---- averages over translations (sy[1]), reflections (sy[2]) and spin flips (sy[3]); configurations by index from 0, first site most significant
Bit(n, k, j) == (k \div Pow(2, n - 1 - j)) % 2
Img(n, k, t, r, f) == LET RECURSIVE go(_)
                          go(j) == IF j = n THEN 0 ELSE
                              LET y == (j + t) % n src == IF r = 1 THEN n - 1 - y ELSE y v == Bit(n, k, src) IN
                              (IF f = 1 THEN 1 - v ELSE v) * Pow(2, n - 1 - j) + go(j + 1)
                      IN go(0)
\* (as maps of configurations; every element of the group counts once)
Elements(n, sy) == {[k \in 0..(Pow(2, n) - 1) |-> Img(n, k, t, r, f)] : t \in IF sy[1] THEN 0..(n - 1) ELSE {0}, r \in IF sy[2] THEN {0, 1} ELSE {0}, f \in IF sy[3] THEN {0, 1} ELSE {0}}
RECURSIVE SumOver(_, _, _, _)
SumOver(S, plain, k, c) == IF S = {} THEN 0 ELSE LET g == CHOOSE x \in S : TRUE IN plain[g[k] + 1][c] + SumOver(S \ {g}, plain, k, c)
SymFails(i, e) == LET n == i.sh[1] G == Elements(n, i.sy) IN
    IF \A k \in 0..(Pow(2, n) - 1) : \A c \in 1..2 : Near(Cardinality(G) * e.sym[k + 1][c], SumOver(G, e.plain, k, c), Cardinality(G) + 2) THEN {} ELSE {"orbit-average"}
\* activation functions: Taylor polynomials of log cosh and of its derivative, recorded at integers in units of 10^-4
ActFails(e) == (IF \A k \in 1..Len(e.x) : LET x == e.x[k] y == x * x IN Near(90 * e.poly6[k], 10000 * (45 * y + 2 * y * y * y) - 75000 * y * y, 120) THEN {} ELSE {"poly6"})
               \cup (IF \A k \in 1..Len(e.x) : LET x == e.x[k] y == x * x IN Near(15 * e.poly5[k], 10000 * x * (15 - 5 * y + 2 * y * y), 120) THEN {} ELSE {"poly5"})
               \cup (IF \A k \in 1..Len(e.x) : e.square[k] = 10000 * e.x[k] * e.x[k] THEN {} ELSE {"square"})
               \cup (IF \A k \in 1..Len(e.lx) : Near(e.lc[k], LogCosh(e.lx[k]), 2) THEN {} ELSE {"log-cosh"})
Fails(c, s, e) ==
    CASE e.op = "conv" -> ConvFails(c.i, e)
      [] e.op = "dense" -> DenseFails(c.i, e)
      [] e.op = "rbm" -> RbmFails(c.i, e)
      [] e.op = "sym" -> SymFails(c.i, e)
      [] e.op = "act" -> ActFails(e)
      [] e.op = "translate" -> IF \A k \in 1..Len(e.v) : CNear(e.v[k], e.v[1], 2) THEN {} ELSE {"translation-invariant"}
      [] OTHER -> {"unknown-event"}
TraceInit == TInit /\ a = 0 /\ b = 0 /\ l = 0 /\ net = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
