------------------------------ MODULE AutoReg ------------------------------
(* Autoregressive networks: an ordering of the lattice sites and, for every prefix of values in that  *)
(* order, a distribution of the next value. Sampling walks through the sites in that order drawing     *)
(* each value from the distribution of its prefix; evaluating multiplies the same distributions. A     *)
(* configuration is handed to the user in lattice order (row by row), whatever the order of the walk.  *)
EXTENDS Num, TLC
CONSTANTS MaxL, MaxL2, Vals, Den
VARIABLES dim, L, tab, pre, mass

vars == <<dim, L, tab, pre, mass>>

Sites(d, l) == IF d = 1 THEN l ELSE l * l
\* lattice position (from 0) of the k-th site (from 0) of the walk: rows are traversed in alternating direction
Pos(d, l, k) == IF d = 1 THEN k ELSE LET r == k \div l q == k % l IN (r * l) + (IF r % 2 = 0 THEN q ELSE l - 1 - q)
\* the walk's value sequence of a configuration, as a number in base v, and back
RECURSIVE WalkTo(_, _, _, _, _)
WalkTo(d, l, v, c, k) == IF k = 0 THEN 0 ELSE (WalkTo(d, l, v, c, k - 1) * v) + c[Pos(d, l, k - 1) + 1]
Walk(d, l, v, c) == WalkTo(d, l, v, c, Len(c))
\* configuration with index i (first site most significant), and its value sequence along the walk
Digit(i, v, n, k) == (i \div Pow(v, n - k)) % v
Config(v, n, i) == [k \in 1..n |-> Digit(i, v, n, k)]
\* marginals: level k (a sequence over all prefixes of length k) from level k + 1
Coarse(v, m) == Force([i \in 1..(Len(m) \div v) |-> SumTo([x \in 1..v |-> m[((i - 1) * v) + x]], v)])

Dists == {f \in [1..Vals -> 1..Den] : SumTo(f, Vals) = Den}
\* prefixes of length < n, as value sequences
Prefixes(n) == UNION {[1..k -> 0..(Vals - 1)] : k \in 0..(n - 1)}
RECURSIVE Prob(_, _)
Prob(t, s) == IF s = <<>> THEN 1 ELSE LET p == SubSeq(s, 1, Len(s) - 1) IN t[p][s[Len(s)] + 1] * Prob(t, p)
RECURSIVE Cont(_, _, _)
\* total weight of all continuations of a prefix to n sites
Cont(t, s, n) == IF Len(s) = n THEN Prob(t, s) ELSE SumTo([v \in 1..Vals |-> Cont(t, Append(s, v - 1), n)], Vals)

Init == /\ dim \in {1, 2} /\ L \in IF dim = 1 THEN 1..MaxL ELSE 1..MaxL2
        /\ tab \in [Prefixes(MinI(Sites(dim, L), MaxL)) -> Dists]
        /\ pre = <<>> /\ mass = 1
Horizon == MinI(Sites(dim, L), MaxL)
Draw == /\ Len(pre) < Horizon
        /\ \E v \in 0..(Vals - 1) : pre' = Append(pre, v) /\ mass' = mass * tab[pre][v + 1]
        /\ UNCHANGED <<dim, L, tab>>
Restart == Len(pre) = Horizon /\ pre' = <<>> /\ mass' = 1 /\ UNCHANGED <<dim, L, tab>>
Next == Draw \/ Restart
Spec == Init /\ [][Next]_vars

\* what is drawn is what is evaluated
SampledIsEvaluated == mass = Prob(tab, pre)
\* the probability of every prefix is the sum over its continuations (the empty one: normalisation)
PrefixMarginal == Cont(tab, pre, Horizon) = mass * Pow(Den, Horizon - Len(pre))
\* the walk visits every site once and moves to a neighbour in every step
WalkOrder == LET n == Sites(dim, L) IN
    /\ {Pos(dim, L, k) : k \in 0..(n - 1)} = 0..(n - 1)
    /\ dim = 2 => \A k \in 0..(n - 2) : LET a == Pos(2, L, k) b == Pos(2, L, k + 1) IN
                  Abs((a \div L) - (b \div L)) + Abs((a % L) - (b % L)) = 1
\* indices along the walk enumerate all configurations
WalkBijective == LET n == Horizon IN Sites(dim, L) <= MaxL =>
    {Walk(dim, L, Vals, Config(Vals, n, i)) : i \in 0..(Pow(Vals, n) - 1)} = 0..(Pow(Vals, n) - 1)
=============================================================================
