------------------------- MODULE MarkovChainTrace -------------------------
(* State: the position of every chain (process, device, chain) and how often each transition was      *)
(* taken. A constant added to the logarithm of the modulus (h.off) changes nothing. Each sample event holds the states visited, per process and device, and what was reported.  *)
EXTENDS MarkovChain, TraceBase
Kern == {"kernel"}
\* ---- judgement of counts: N trials, success probability m/T, seven standard deviations
Freq(N, cnt, m, T) == LET dev == cnt * T - N * m IN
    IF m = 0 THEN cnt = 0 ELSE IF m = T THEN cnt = N
    ELSE Abs(dev) < 40000 /\ dev * dev <= 49 * N * m * (T - m) + 50 * T * T
\* ---- proposers on states 0..n-1: number of outcomes (out of two) leading from a to b
Out(h, a, b) == IF h.prop = "cyc" THEN (IF b = (a + h.arg) % h.n THEN 2 ELSE 0)
                ELSE IF a = 0 THEN (IF b \in {1, 2} THEN 1 ELSE 0) ELSE (IF b = 0 THEN 2 ELSE 0)
\* the parameter w multiplies the logarithms of the moduli
AmpOf(h, w, v) == IF h.amp[v + 1] = -1 THEN -1 ELSE w * h.amp[v + 1]
AccOf(h, w, a, b) == Acc(AmpOf(h, w, a), AmpOf(h, w, b), h.mu2)
W(s, e) == IF Fld(e, "par") THEN e.par ELSE s.w
\* transition probability a -> b (a # b) as <<num, den>>
TProb(h, w, a, b) == LET p == AccOf(h, w, a, b) IN <<Out(h, a, b) * p[1], 2 * p[2]>>
States(h) == 0..(h.n - 1)
Start(c) == IF c.kind \in Kern THEN <<>> ELSE
            [w |-> 1, pos |-> [r \in 1..c.R |-> [d \in 1..c.h.d |-> [k \in 1..c.h.chains |-> c.h.start]]],
             cnt |-> [w \in 0..2 |-> [a \in States(c.h) |-> [b \in States(c.h) |-> 0]]]]
\* path of chain k on process r, device d during a call: position before it, then after each step. One chain or one step per call.
Path(h, s, e, r, d, k) == <<s.pos[r][d][k]>> \o (IF h.chains = 1 THEN e.st[r][d] ELSE <<e.st[r][d][k]>>)
Idx(c) == (1..c.R) \X (1..c.h.d) \X (1..c.h.chains)
Shape(c, e) == Len(e.st) = c.R /\ \A r \in 1..c.R : Len(e.st[r]) = c.h.d
               /\ \A d \in 1..c.h.d : /\ Len(e.st[r][d]) * c.R * c.h.d = e.n
                                      /\ \A i \in 1..Len(e.st[r][d]) : e.st[r][d][i] \in States(c.h)
Pairs(c, s, e, a, b) == SumSeq([q \in 1..(c.R * c.h.d * c.h.chains) |->
    LET k == ((q - 1) % c.h.chains) + 1 d == (((q - 1) \div c.h.chains) % c.h.d) + 1 r == ((q - 1) \div (c.h.chains * c.h.d)) + 1
        p == Path(c.h, s, e, r, d, k)
    IN Cardinality({t \in 1..(Len(p) - 1) : p[t] = a /\ p[t + 1] = b})])
Counted(c) == c.h.mode # "flat"
NewCnt(c, s, e) == [s.cnt EXCEPT ![W(s, e)] = [a \in States(c.h) |-> [b \in States(c.h) |-> s.cnt[W(s, e)][a][b] + Pairs(c, s, e, a, b)]]]
FlatEnd(c, e) == LET per == e.n \div (c.R * c.h.d * c.h.chains) IN c.h.arg * c.h.sweep * (c.h.therm + per)
Step(c, s, e) ==
    IF e.op = "set" THEN [s EXCEPT !.w = e.v] ELSE IF e.op # "sample" \/ ~Shape(c, e) THEN s
    ELSE IF Counted(c) THEN [w |-> s.w, pos |-> [r \in 1..c.R |-> [d \in 1..c.h.d |-> [k \in 1..c.h.chains |-> LET p == Path(c.h, s, e, r, d, k) IN p[Len(p)]]]],
                             cnt |-> NewCnt(c, s, e)]
    ELSE [s EXCEPT !.pos = [r \in 1..c.R |-> [d \in 1..c.h.d |-> [k \in 1..c.h.chains |-> (s.pos[r][d][k] + FlatEnd(c, e)) % c.h.n]]]]
\* every recorded step keeps the state or makes a proposed move that can be accepted; certain moves are made
StepOK(h, w, a, b) == IF a = b THEN \E t \in States(h) : Out(h, a, t) > 0 /\ AccOf(h, w, a, t) # <<1, 1>>
                   ELSE Out(h, a, b) > 0 /\ AccOf(h, w, a, b)[1] > 0
WalkFails(c, s, e) ==
    (IF \A x \in Idx(c) : LET p == Path(c.h, s, e, x[1], x[2], x[3]) IN \A t \in 1..(Len(p) - 1) : StepOK(c.h, W(s, e), p[t], p[t + 1])
     THEN {} ELSE {"step"})
    \cup LET moves == SumSeq([a \in 1..c.h.n |-> SumSeq([b \in 1..c.h.n |-> IF a = b THEN 0 ELSE Pairs(c, s, e, a - 1, b - 1)])])
         IN IF \A r \in 1..c.R : Near(e.acc[r], moves, 0) THEN {} ELSE {"acceptance-ratio"}
\* constant modulus: everything is accepted, so that the steps per sweep and for thermalisation can be counted
FlatFails(c, s, e) ==
    LET per == e.n \div (c.R * c.h.d * c.h.chains) IN
    (IF \A r \in 1..c.R, d \in 1..c.h.d : \A v \in States(c.h) :
          Cardinality({i \in 1..Len(e.st[r][d]) : e.st[r][d][i] = v})
            = c.h.chains * Cardinality({t \in 1..per : (s.pos[r][d][1] + c.h.arg * c.h.sweep * (c.h.therm + t)) % c.h.n = v})
     THEN {} ELSE {"steps-per-sample"})
    \cup (IF \A r \in 1..c.R : e.acc[r] = c.R * c.h.d * c.h.chains * c.h.sweep * (c.h.therm + per) THEN {} ELSE {"acceptance-ratio"})
\* weights proportional to the modulus to the power 1/kappa - mu; here kap2 = 2 kappa and exponents are in halves
Ex2(c, w, v) == ((8 \div (2 * c.h.kap2)) - c.h.mu2) * AmpOf(c.h, w, v)
MaxAll(S) == CHOOSE x \in S : \A y \in S : y <= x
WeightFails(c, w, e) ==
    LET seen == {e.st[r][d][i] : r \in 1..c.R, d \in 1..c.h.d, i \in 1..Len(e.st[1][1])}
        top == MaxAll({Ex2(c, w, v) : v \in seen})
    IN (IF \A r \in 1..c.R, d \in 1..c.h.d : /\ Len(e.w[r][d]) = Len(e.st[r][d])
              /\ \A i \in 1..Len(e.st[r][d]) : LET k == top - Ex2(c, w, e.st[r][d][i]) IN
                   \* weight relative to the largest one over all processes, scaled by 10^6
                   IF k % 2 = 0 THEN Near(e.w[r][d][i], RDiv(1000000, Pow(2, MinI(k \div 2, 20))), 3)
                   ELSE Near(e.w[r][d][i], RDiv(1414214, Pow(2, MinI((k + 1) \div 2, 20))), 3)
        THEN {} ELSE {"weights"})
       \cup (IF \A r \in 1..c.R : Near(e.wsum[r], 1000000, 100) THEN {} ELSE {"weights-normalised"})
       \cup (IF \A r \in 1..c.R, d \in 1..c.h.d : \A i \in 1..Len(e.st[r][d]) :
                LET v == e.st[r][d][i] IN e.co[r][d][i] = <<1000 * AmpOf(c.h, w, v), IF c.h.net = "real" THEN 0 ELSE 1000 * c.h.phase[v + 1]>>
             THEN {} ELSE {"coefficients"})
KernelFails(e) ==
    LET T == Total(e.prop, Len(e.s)) IN
    (IF \A i \in 1..Len(e.out) : Len(e.out[i][1]) = Len(e.s) /\ Mult(e.prop, e.s, e.out[i][1]) > 0 THEN {} ELSE {"legal-move"})
    \cup (IF \A i \in 1..Len(e.out) : Freq(e.n, e.out[i][2], Mult(e.prop, e.s, e.out[i][1]), T) THEN {} ELSE {"proposal-frequency"})
    \cup (IF \A t \in {c \in [1..Len(e.s) -> Values(e.prop)] : Mult(e.prop, e.s, c) > 0} : \E i \in 1..Len(e.out) : e.out[i][1] = t THEN {} ELSE {"missing-move"})
EndFails(c, s) ==
    IF ~Counted(c) THEN {} ELSE
    IF \A w \in 0..2 : \A a \in States(c.h) : LET N == SumSeq([b \in 1..c.h.n |-> s.cnt[w][a][b - 1]]) IN
         \A b \in States(c.h) \ {a} : LET p == TProb(c.h, w, a, b) IN IF p[2] <= 16 /\ N > 0 THEN Freq(N, s.cnt[w][a][b], p[1], p[2]) ELSE TRUE
    THEN {} ELSE {"transition-frequency"}
\* walk of a supplied proposer: states along one chain, each step keeps the configuration or makes a legal move
LibFails(e) == IF \A t \in 1..(Len(e.path) - 1) : e.path[t] = e.path[t + 1] \/ Mult(e.prop, e.path[t], e.path[t + 1]) > 0 THEN {} ELSE {"legal-move"}
Fails(c, s, e) ==
    CASE e.op = "sample" -> IF ~Shape(c, e) THEN {"number-of-states"}
                            ELSE (IF Counted(c) THEN WalkFails(c, s, e) ELSE FlatFails(c, s, e)) \cup WeightFails(c, W(s, e), e)
      [] e.op = "end" -> EndFails(c, s)
      [] e.op = "kernel" -> KernelFails(e)
      [] e.op = "libwalk" -> LibFails(e)
      [] OTHER -> {}
TraceInit == TInit /\ prop = 0 /\ cur = 0 /\ amp = 0 /\ mu2 = 0 /\ prop_ = 0 /\ acc_ = 0 /\ call = 0 /\ kept = 0 /\ moved = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
