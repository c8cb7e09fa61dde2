------------------------- MODULE SampleBudgetTrace -------------------------
(* A case: layout (R, D), kind, chains, initial default; events recorded on all processes.           *)
EXTENDS SampleBudget, TraceBase

Start(c) == [deflt |-> IF Fld(c, "init") THEN c.init ELSE 0, last |-> 0, lastR |-> 0]

BlockOf(c, m) == IF c.kind = "mcmc" THEN Lcm(c.chains, m) ELSE m

SampleFails(c, s, e) ==
    LET N == IF e.n = 0 THEN s.deflt ELSE e.n
        B1 == BlockOf(c, e.m)
        DD == c.D
        RR == c.R
        Sizes == {e.shapes[i][k] : i \in 1..RR, k \in {1, 2, 3}}   \* leading (device) dimension of the three outputs
        Per == [i \in 1..RR |-> e.counts[i][1]]
    IN  (IF Sizes = {DD} THEN {} ELSE {"device-dimension"})
     \cup (IF \A i \in 1..RR : \A k \in {2, 3} : e.counts[i][k] = e.counts[i][1] THEN {} ELSE {"outputs-aligned"})
     \cup (IF Enough(Per, DD, N) THEN {} ELSE {"enough-samples"})
     \cup (IF NotWasteful(Per, DD, N, RR, B1) THEN {} ELSE {"not-wasteful"})
     \cup (IF WholeBlocks(Per, e.m) THEN {} ELSE {"multiple-of-block"})
     \cup (IF Truthful(Per, DD, e.reported) THEN {} ELSE {"reported-count"})
     \cup (IF Near(SumSeq(e.wsum), 1000000, 2 * RR) THEN {} ELSE {"weights-sum-to-one"})
     \cup (IF Total(Per, DD) = 0 \/ \A i \in 1..RR : Per[i] = 0 \/
              (Near(e.wmin[i], 1000000 \div Total(Per, DD), 2) /\ Near(e.wmax[i], 1000000 \div Total(Per, DD), 2))
           THEN {} ELSE {"equal-weights"})

\* direct calls of the distribution function: chains per device c.. per-chain counts, announced total
DistFails(c, s, e) ==
    LET Per == [i \in 1..c.R |-> e.per[i] * e.ch]
    IN  (IF Enough(Per, e.d, e.n) THEN {} ELSE {"dist-enough"})
     \cup (IF NotWasteful(Per, e.d, e.n, c.R, e.ch) THEN {} ELSE {"dist-not-wasteful"})
     \cup (IF Truthful(Per, e.d, e.glob) THEN {} ELSE {"dist-reported"})

\* split of an enumerated space over processes: shares and first indices
SplitFails(c, s, e) ==
    (IF \A i \in 1..c.R : e.glob[i] = e.n THEN {} ELSE {"split-total"})
    \cup (IF SumSeq(e.per) = e.n THEN {} ELSE {"split-complete"})
    \cup (IF \A i, j \in 1..c.R : Abs(e.per[i] - e.per[j]) <= 1 THEN {} ELSE {"split-even"})
    \cup (IF \A i \in 1..c.R : e.first[i] = SumTo(e.per, i - 1) THEN {} ELSE {"split-contiguous"})

Fails(c, s, e) ==
    CASE e.op = "sample" -> SampleFails(c, s, e)
      [] e.op = "dist" -> DistFails(c, s, e)
      [] e.op = "split" -> SplitFails(c, s, e)
      [] OTHER -> {}

Step(c, s, e) == IF e.op = "setN" THEN [s EXCEPT !.deflt = e.n] ELSE s
TraceInit == TInit /\ R = 0 /\ D = 0 /\ B = 0 /\ deflt = 0 /\ req = 0 /\ counts = <<>> /\ reported = <<>> /\ nreq = 0
TraceNext == TNext /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, ci, li, ts, nev>>
=============================================================================
