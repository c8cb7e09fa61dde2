---------------------------- MODULE SampleBudget ----------------------------
(* Distribution of a sampling request over R processes with D devices each. A request for N samples  *)
(* in blocks of B (the least common multiple of the number of chains and the requested multiple) is  *)
(* answered by every process independently; processes act in any order and only know N, R and their  *)
(* own number. Sessions consist of several requests and changes of the default number.               *)
EXTENDS Num, TLC

CONSTANTS MaxR, MaxD, Blocks, MaxN, MaxReq

\* ---- what a process does for a request
Share(N, R, r) == N \div R + (IF r < N % R THEN 1 ELSE 0)
BlocksOf(share, D, B) == CeilDiv(share, D * B)              \* blocks per device of that process
PerDevice(N, R, r, D, B) == BlocksOf(Share(N, R, r), D, B) * B
Announced(N, R, D, B) ==                                     \* total every process announces
    LET a == N % R IN (a * BlocksOf(1 + N \div R, D, B) + (R - a) * BlocksOf(N \div R, D, B)) * D * B
FirstId(N, R, r) == r * (N \div R) + (IF r < N % R THEN r ELSE N % R)

\* ---- what a user relies on; counts[r+1] is the number per device on process r
RECURSIVE TotalTo(_, _, _)
TotalTo(counts, D, n) == IF n = 0 THEN 0 ELSE D * counts[n] + TotalTo(counts, D, n - 1)
Total(counts, D) == TotalTo(counts, D, Len(counts))
Enough(counts, D, N) == Total(counts, D) >= N
NotWasteful(counts, D, N, R, B) == Total(counts, D) < N + R * D * B
WholeBlocks(counts, m) == \A i \in 1..Len(counts) : counts[i] % m = 0
Truthful(counts, D, reported) == \A i \in 1..Len(reported) : reported[i] = Total(counts, D)

VARIABLES R, D, B, deflt, req, counts, reported, nreq

vars == <<R, D, B, deflt, req, counts, reported, nreq>>

None == -1

Init == /\ R \in 1..MaxR /\ D \in 1..MaxD /\ B \in Blocks
        /\ deflt \in {3, MaxN} /\ req = None /\ nreq = 0
        /\ counts = <<>> /\ reported = <<>>

SetDefault == /\ req = None /\ nreq < MaxReq
              /\ deflt' \in {1, 5, MaxN} \ {deflt}
              /\ UNCHANGED <<R, D, B, req, counts, reported, nreq>>

Request == /\ req = None /\ nreq < MaxReq
           /\ \E n \in 0..MaxN : req' = IF n = 0 THEN deflt ELSE n
           /\ counts' = [i \in 1..R |-> None] /\ reported' = [i \in 1..R |-> None]
           /\ nreq' = nreq + 1
           /\ UNCHANGED <<R, D, B, deflt>>

Draw(r) == /\ req # None /\ counts[r + 1] = None
           /\ counts' = [counts EXCEPT ![r + 1] = PerDevice(req, R, r, D, B)]
           /\ reported' = [reported EXCEPT ![r + 1] = Announced(req, R, D, B)]
           /\ UNCHANGED <<R, D, B, deflt, req, nreq>>

Finish == /\ req # None /\ \A i \in 1..R : counts[i] # None
          /\ req' = None
          /\ UNCHANGED <<R, D, B, deflt, counts, reported, nreq>>

Next == SetDefault \/ Request \/ (\E r \in 0..(MaxR - 1) : r < R /\ Draw(r)) \/ Finish

Spec == Init /\ [][Next]_vars

Complete == req # None /\ \A i \in 1..R : counts[i] # None

BudgetInv == Complete => /\ Enough(counts, D, req)
                         /\ NotWasteful(counts, D, req, R, B)
                         /\ WholeBlocks(counts, B)
                         /\ Truthful(counts, D, reported)

\* the index ranges used for splitting an enumerated space are contiguous and complete
RangesInv == Complete => /\ FirstId(req, R, 0) = 0
                         /\ \A r \in 0..(R - 1) : FirstId(req, R, r) + Share(req, R, r) =
                                IF r = R - 1 THEN req ELSE FirstId(req, R, r + 1)
=============================================================================
