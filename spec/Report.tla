------------------------------ MODULE Report ------------------------------
(* Measurement reports and the ground state search loop.                                              *)
(* Part 1: definitions of the reported statistics for integer data.                                    *)
(* Part 2: the search as a state machine: variances seen, parameter versions, diagonal shift and the   *)
(*         observables recorded along the way.                                                         *)
EXTENDS Num
CONSTANTS Limits, Tols, Vars
VARIABLES lim, tol, rec, pc, n, seen, ver, shift, used, log
vars == <<lim, tol, rec, pc, n, seen, ver, shift, used, log>>

\* ---- statistics; w: integer weights, f: integer (or Gaussian integer) values of the estimator
WSum(w) == SumSeq(w)
M1(w, f) == SumSeq([i \in 1..Len(w) |-> w[i] * f[i]])
\* numerator of the variance over W^2
VNum(w, re, im) == WSum(w) * SumSeq([i \in 1..Len(w) |-> w[i] * (re[i] * re[i] + im[i] * im[i])]) - M1(w, re) * M1(w, re) - M1(w, im) * M1(w, im)
\* a/b in units of 1/s without overflow (b > 0)
Quot(a, b, s) == (a \div b) * s + (((a % b) * s) \div b)

\* ---- site averages of an outcome configuration x under single-site values v; lattice of side L, distance d along the first axis
Shifted(dim, L, i, d) == IF dim = 1 THEN 1 + ((i - 1 + L - d) % L)
                         ELSE 1 + ((((i - 1) \div L) + L - d) % L) * L + ((i - 1) % L)
SiteSum(v, x) == SumSeq([i \in 1..Len(x) |-> v[x[i] + 1]])
CorrSum(dim, L, v, x, d) == SumSeq([i \in 1..Len(x) |-> v[x[i] + 1] * v[x[Shifted(dim, L, i, d)] + 1]])

\* ---- the search loop
RECURSIVE StepsFrom(_, _, _, _)
\* number of steps taken when the k-th step finds the variance vs[k]
StepsFrom(vs, l, t, k) == IF k >= l THEN l ELSE IF k > 0 /\ vs[k] <= t THEN k ELSE IF k + 1 > Len(vs) THEN Len(vs) ELSE StepsFrom(vs, l, t, k + 1)
NumSteps(vs, l, t) == StepsFrom(vs, l, t, 0)

Init == /\ lim \in Limits /\ tol \in Tols /\ rec \in BOOLEAN
        /\ pc = "first" /\ n = 0 /\ seen = <<>> /\ ver = 0 /\ shift = 0 /\ used = <<>> /\ log = <<>>
First == /\ pc = "first" /\ pc' = "loop"
         /\ log' = IF rec THEN <<<<0, ver>>>> ELSE log
         /\ UNCHANGED <<lim, tol, rec, n, seen, ver, shift, used>>
Go == n < lim /\ IF n = 0 THEN TRUE ELSE seen[n] > tol
StepOnce == /\ pc = "loop" /\ Go
            /\ used' = Append(used, <<ver, shift>>)
            /\ ver' = ver + 1 /\ n' = n + 1
            /\ \E v \in Vars : seen' = Append(seen, v)
            /\ pc' = "record"
            /\ UNCHANGED <<lim, tol, rec, shift, log>>
Record == /\ pc = "record" /\ pc' = "loop"
          /\ log' = IF rec THEN Append(log, <<n, ver>>) ELSE log
          /\ shift' = shift + 1
          /\ UNCHANGED <<lim, tol, rec, n, seen, ver, used>>
Stop == /\ pc = "loop" /\ ~Go /\ pc' = "done"
        /\ UNCHANGED <<lim, tol, rec, n, seen, ver, shift, used, log>>
Next == First \/ StepOnce \/ Record \/ Stop
Spec == Init /\ [][Next]_vars

StepCount == pc = "done" => n = NumSteps(seen, lim, tol) /\ Len(seen) = n
Recorded == pc = "done" => log = IF rec THEN [k \in 1..(n + 1) |-> <<k - 1, k - 1>>] ELSE <<>>
Inputs == \A k \in 1..Len(used) : used[k] = <<k - 1, k - 1>>

\* algebra of the averages, over all configurations of a short chain and a small square
XS == [1..4 -> 0..1]
Roll(x) == Force([i \in 1..4 |-> x[1 + (i % 4)]])
Averages == \A x0 \in XS : LET x == Force(x0) v == <<2, -1>> IN
    /\ \A d \in 0..3 : CorrSum(1, 4, v, x, d) = CorrSum(1, 4, v, x, (4 - d) % 4)
    /\ \A d \in 0..3 : CorrSum(1, 4, v, Roll(x), d) = CorrSum(1, 4, v, x, d)
    /\ SumSeq([d \in 1..4 |-> CorrSum(1, 4, v, x, d - 1)]) = SiteSum(v, x) * SiteSum(v, x)
    /\ CorrSum(2, 2, v, x, 1) = 2 * (v[x[1] + 1] * v[x[3] + 1] + v[x[2] + 1] * v[x[4] + 1])
    /\ VNum(<<1, 2, 3, 4>>, x, x) >= 0
ASSUME Averages
=============================================================================
