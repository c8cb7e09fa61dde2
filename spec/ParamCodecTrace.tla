-------------------------- MODULE ParamCodecTrace --------------------------
(* State: the parameter tree (real and imaginary parts in canonical order), the map from vector       *)
(* entries to degrees of freedom learned from the probe event, and a saved tree.                       *)
EXTENDS ParamCodec, TraceBase
UU == 1000
Zeros(n) == [i \in 1..n |-> 0]
Start(c) == [re |-> Zeros(c.n), im |-> Zeros(c.n), m |-> <<>>, sv |-> <<>>]
IsMap(c, m) == /\ Len(m) = c.p
               /\ \A k \in 1..c.p : m[k][1] \in 1..c.n /\ m[k][2] \in {0, 1}
               /\ \A i, j \in 1..c.p : i # j => m[i] # m[j]
Good(c, s) == s.m # <<>>
PosOf(s, j, part) == CHOOSE k \in 1..Len(s.m) : s.m[k] = <<j, part>>
Cpx(c) == c.p = 2 * c.n
DecRe(c, s, v) == [j \in 1..c.n |-> v[PosOf(s, j, 0)]]
DecIm(c, s, v) == [j \in 1..c.n |-> IF Cpx(c) THEN v[PosOf(s, j, 1)] ELSE 0]
Enc(s) == [k \in 1..Len(s.m) |-> IF s.m[k][2] = 0 THEN s.re[s.m[k][1]] ELSE s.im[s.m[k][1]]]
Step(c, s, e) ==
    CASE e.op = "probe" -> [s EXCEPT !.m = IF IsMap(c, e.map) THEN e.map ELSE <<>>]
      [] ~Good(c, s) -> s
      [] e.op = "set" -> [s EXCEPT !.re = DecRe(c, s, e.v), !.im = DecIm(c, s, e.v)]
      [] e.op = "upd" -> [s EXCEPT !.re = Force([j \in 1..c.n |-> s.re[j] + DecRe(c, s, e.v)[j]]),
                                   !.im = Force([j \in 1..c.n |-> s.im[j] + DecIm(c, s, e.v)[j]])]
      [] e.op = "settree" -> [s EXCEPT !.re = e.re, !.im = e.im]
      [] e.op = "save" -> [s EXCEPT !.sv = <<s.re, s.im>>]
      [] e.op = "restore" -> [s EXCEPT !.re = s.sv[1], !.im = s.sv[2]]
      [] OTHER -> s
Scaled(v) == [i \in 1..Len(v) |-> UU * v[i]]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* after every step the recorder reads the tree and the vector
StateFails(s, e) == (IF Same(e.tre, Scaled(s.re)) /\ Same(e.tim, Scaled(s.im)) THEN {} ELSE {"tree"})
                    \cup (IF Same(e.vec, Scaled(Enc(s))) THEN {} ELSE {"vector"})
Tr(s) == [re |-> s.re, im |-> s.im]
EvalFails(c, s, e) ==
    IF /\ Len(e.out) = Len(e.cfgs)
       /\ \A i \in 1..Len(e.cfgs) : CNear(e.out[i], CScale(UU, Value(c.kind, c.n1, Tr(s), e.cfgs[i])), 1)
    THEN {} ELSE {"evaluation"}
\* derivative of the logarithm; none where a plain amplitude vanishes
SDiv(m, dd) == LET f == (dd \div 400000) + 1 x == Abs(m) v == UU * (x \div dd) + RDiv(UU * ((x % dd) \div f), dd \div f) IN IF m < 0 THEN -v ELSE v
CDivQ(a, b) == LET m == CMul(a, CConj(b)) dd == b[1] * b[1] + b[2] * b[2] IN <<SDiv(m[1], dd), SDiv(m[2], dd)>>
GradOk(c, s, x, j, part, out) ==
    LET d == Deriv(c.kind, c.n1, Tr(s), x, j, part) IN
    IF c.log THEN CNear(out, CScale(UU, d), 1)
    ELSE LET v == Value(c.kind, c.n1, Tr(s), x) IN v = <<0, 0>> \/ CNear(out, CDivQ(d, v), 2)
GradFails(c, s, e) ==
    IF /\ Len(e.out) = Len(e.cfgs)
       /\ \A i \in 1..Len(e.cfgs) : /\ Len(e.out[i]) = c.p
             /\ \A k \in 1..c.p : GradOk(c, s, e.cfgs[i], s.m[k][1], s.m[k][2], e.out[i][k])
    THEN {} ELSE {"gradient"}
\* e.pos: vector positions (from the map) and e.out[i]: numbers, both in the same (leaf by leaf) order
DictFails(c, s, e) ==
    (IF Len(e.pos) = c.p /\ {e.pos[q] : q \in 1..Len(e.pos)} = 1..c.p THEN {} ELSE {"dictionary-map"})
    \cup (IF /\ Len(e.out) = Len(e.cfgs)
             /\ \A i \in 1..Len(e.cfgs) : /\ Len(e.out[i]) = Len(e.pos)
                   /\ \A q \in 1..Len(e.pos) : e.pos[q] \in 1..c.p
                      /\ GradOk(c, s, e.cfgs[i], s.m[e.pos[q]][1], s.m[e.pos[q]][2], e.out[i][q])
          THEN {} ELSE {"dictionary-gradient"})
FdFails(e) == IF /\ Len(e.g) = Len(e.fd)
                 /\ \A i \in 1..Len(e.g) : Len(e.g[i]) = Len(e.fd[i]) /\ \A k \in 1..Len(e.g[i]) : CNear(e.g[i][k], e.fd[i][k], 3)
              THEN {} ELSE {"derivative"}
FineFails(e) == IF Same(e.r1, e.v) /\ Same(e.r2, [i \in 1..Len(e.v) |-> <<e.v[i][1] + e.w[i][1], e.v[i][2] + e.w[i][2]>>]) THEN {} ELSE {"full-precision"}
Fails(c, s0, e) ==
    LET s == Step(c, s0, e) IN
    CASE e.op = "probe" -> IF IsMap(c, e.map) THEN {} ELSE {"one-entry-per-degree-of-freedom"}
      [] e.op = "fd" -> FdFails(e)
      [] e.op = "fine" -> FineFails(e)
      [] e.op = "seed" -> (IF e.equal THEN {} ELSE {"same-seed"}) \cup (IF e.other THEN {} ELSE {"other-seed"})
      [] ~Good(c, s) -> {}
      [] OTHER -> StateFails(s, e) \cup (CASE e.op = "eval" -> EvalFails(c, s, e) [] e.op = "grad" -> GradFails(c, s, e)
                                         [] e.op = "gdict" -> DictFails(c, s, e) [] OTHER -> {})
TraceInit == TInit /\ P = 0 /\ tree = 0 /\ M = 0 /\ nw = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
