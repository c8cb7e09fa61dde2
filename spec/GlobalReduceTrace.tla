------------------------- MODULE GlobalReduceTrace -------------------------
(* Every event carries the data of all processes and, per process, the result (numbers times 1000)   *)
(* and the sequence of collective operations the process took part in.                               *)
EXTENDS GlobalReduce, TraceBase
Start(c) == 0
Step(c, s, e) == s
NP(e) == Len(e.data)
\* component k of all entries, in process order, device by device
Col(e, k) == Flat([r \in 1..NP(e) |-> Flat([d \in 1..Len(e.data[r]) |->
                 [i \in 1..Len(e.data[r][d]) |-> [x |-> e.data[r][d][i][k], w |-> e.w[r][d][i]]]])])
Q(x, den) == RDiv(1000 * x, den)
CQ(x, den) == <<Q(x[1], den), Q(x[2], den)>>
AllEntries(e) == Flat([r \in 1..NP(e) |-> Flat(e.data[r])])
Expect(e) ==
    LET W == WTot(Col(e, 1)) IN
    CASE e.op = "sum" -> [k \in 1..e.K |-> CScale(1000, DSum(Col(e, k)))]
      [] e.op = "mean" -> [k \in 1..e.K |-> CQ(WSum(Col(e, k)), W)]
      [] e.op = "var" -> [k \in 1..e.K |-> <<RDiv(RDiv(1000 * VarW2(Col(e, k)), W), W), 0>>]
      [] e.op = "cov" -> Flat([k \in 1..e.K |-> [l \in 1..e.K |->
                             LET c == CovW2(Col(e, k), Col(e, l)) IN <<RDiv(RDiv(1000 * c[1], W), W), RDiv(RDiv(1000 * c[2], W), W)>>]])
      [] e.op = "gather" -> Flat([n \in 1..Len(AllEntries(e)) |-> [k \in 1..e.K |-> CScale(1000, AllEntries(e)[n][k])]])
      [] e.op = "bcast" -> [i \in 1..e.len |-> <<1000 * (i * i - 3 * e.root), 0>>]
EShape(e) == IF e.form = "num" THEN <<>> ELSE IF e.form = "mat" THEN <<2, 2>> ELSE <<e.K>>
Shape(e) == CASE e.op \in {"sum", "mean", "var"} -> EShape(e)
              [] e.op = "cov" -> <<e.K, e.K>>
              [] e.op = "gather" -> <<Len(AllEntries(e))>> \o EShape(e)
              [] e.op = "bcast" -> <<e.len>>
Fails(c, s, e) ==
    LET ex == Expect(e)
        P == 1..NP(e)
        okShape == \A r \in P : e.shape[r] = Shape(e) /\ Len(e.res[r]) = Len(ex)
    IN  (IF okShape THEN {} ELSE {e.op \o "-shape"})
     \cup (IF okShape => \A r \in P : \A i \in 1..Len(ex) : CNear(e.res[r][i], ex[i], 3) THEN {} ELSE {e.op \o "-value"})
     \cup (IF \A r \in P : e.res[r] = e.res[1] THEN {} ELSE {e.op \o "-same-on-all-processes"})
     \cup (IF \A r \in P : e.devs[r] = [n |-> Len(e.dev[r]), m |-> Len(e.dev[r]), ids |-> e.dev[r]] THEN {} ELSE {"devices-in-use"})
     \cup (IF \A r \in P : e.coll[r] = e.coll[1] THEN {} ELSE {e.op \o "-collectives-match"})
TraceInit == TInit /\ R = 0 /\ dat = 0 /\ call = 0 /\ pos = 0 /\ inside = 0 /\ acc = 0 /\ res = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
