--------------------------- MODULE AutoRegTrace ---------------------------
(* Probabilities are recorded in units of 10^-8, counts as they are, logarithmic amplitudes in 10^-5. *)
EXTENDS AutoReg, TraceBase
Start(c) == 0
Step(c, s, e) == s
Nn(c) == Sites(c.dim, c.L)
Total(c) == Pow(c.v, Nn(c))
\* the lattice index (from 0) of the configuration with index i (from 0) along the walk
Lat(c, i) == LET n == Nn(c)
                 RECURSIVE go(_)
                 go(k) == IF k = n THEN 0 ELSE (Digit(i, c.v, n, k + 1) * Pow(c.v, n - 1 - Pos(c.dim, c.L, k))) + go(k + 1)
             IN go(0)
AlongWalk(c, m) == Force([i \in 1..Total(c) |-> m[Lat(c, i - 1) + 1]])
\* deviation within seven standard deviations (p in 10^-5)
FreqOk(n, cnt, p) == LET ex == (n * p) \div 100000 dev == cnt - ex IN
    Abs(dev) < 20000 /\ (IF p = 0 THEN cnt < 8 ELSE dev * dev <= 49 * (ex + 2))
RECURSIVE Levels(_, _, _, _)
\* all prefix marginals of counts m and probabilities p agree
Levels(v, n, m, p) == /\ \A i \in 1..Len(m) : FreqOk(n, m[i], p[i] \div 1000)
                      /\ IF Len(m) = 1 THEN TRUE ELSE Levels(v, n, Coarse(v, m), Coarse(v, p))
SumRanks(c, e) == Force([i \in 1..Total(c) |-> SumTo([r \in 1..Len(e.cnt) |-> e.cnt[r][i]], Len(e.cnt))])
\* (sums of probabilities are only formed while they cannot overflow)
Summable(c, e) == \A i \in 1..Len(e.P) : e.P[i] >= 0 /\ e.P[i] <= 110000000
RECURSIVE SumUpTo(_, _, _)
SumUpTo(m, k, acc) == IF k = 0 \/ acc > 1000000000 THEN acc ELSE SumUpTo(m, k - 1, acc + m[k])
Normalised(c, e) == Summable(c, e) /\ Near(SumUpTo(e.P, Len(e.P), 0), 100000000, 200 + Total(c))
Fails(c, s, e) ==
    CASE e.op = "norm" -> IF Len(e.P) = Total(c) /\ Normalised(c, e) THEN {} ELSE {"normalised"}
      [] e.op = "sample" ->
           LET ok == Normalised(c, e) IN
           (IF Len(e.P) = Total(c) /\ ok THEN {} ELSE {"normalised"})
           \cup (IF \A r \in 1..Len(e.range) : e.range[r] THEN {} ELSE {"sample-range"})
           \cup (IF \A r \in 1..Len(e.range) : e.n = e.total[r] THEN {} ELSE {"sample-count"})
           \cup (IF \A i \in 1..Len(e.tbl) : c.rout /\ c.wrap = "net" => Abs(e.tbl[i][2]) <= 1 THEN {} ELSE {"real-output"})
           \cup (IF \A r \in 1..Len(e.smp) : \A i \in 1..Len(e.smp[r]) : LET x == e.smp[r][i] IN
                       x[1] >= 0 /\ Near(x[2], e.tbl[x[1] + 1][1], 2) /\ Near(x[3], e.tbl[x[1] + 1][2], 2) THEN {} ELSE {"sample-amplitude"})
           \cup (IF ~ok \/ ~(\A r \in 1..Len(e.range) : e.range[r]) THEN {}
                 ELSE IF Levels(c.v, e.n, AlongWalk(c, SumRanks(c, e)), AlongWalk(c, e.P)) THEN {} ELSE {"sample-distribution"})
      [] OTHER -> {"unknown-event"}
TraceInit == TInit /\ dim = 1 /\ L = 1 /\ tab = 0 /\ pre = 0 /\ mass = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
