----------------------------- MODULE SymAverage -----------------------------
(* Averages of a plain network over a symmetry group, and how they transform. The test networks give   *)
(* integers A(s), B(s) in 0..3 that depend on every site differently.                                   *)
EXTENDS LatticeGroup
Dot(c, s) == SumSeq([i \in 1..Len(s) |-> c[i] * s[i]])
NA(c, s) == (c[Len(c)] + Dot(c, s)) % 4
\* amplitude as Gaussian integer, never zero
Amp(ca, cb, s) == <<1 + NA(ca, s), NA(cb, s) - 1>>
UnitPow(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RECURSIVE CSumSet(_, _)
CSumSet(f(_), S) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in S : TRUE IN CAdd(f(x), CSumSet(f, S \ {x}))
\* sum over the group of factor times plain amplitude (factors: fourth roots of unity, exponents in twelfths)
PsiSum(H, ca, cb, s) == CSumSet(LAMBDA x : CMul(UnitPow(x[2] \div 3), Amp(ca, cb, Act(x[1], s))), H)
LogSum(H, ca, cb, s) == CSumSet(LAMBDA x : <<NA(ca, Act(x[1], s)), NA(cb, Act(x[1], s))>>, H)
SepSum(H, ca, cb, s) == [w |-> CSumSet(LAMBDA x : <<(1 + NA(ca, Act(x[1], s))) * (1 + NA(ca, Act(x[1], s))), 0>>, H)[1],
                         z |-> CSumSet(LAMBDA x : UnitPow(NA(cb, Act(x[1], s))), H)]
\* ---- design property: the averaged amplitude transforms with the inverse factor
CONSTANTS CoA, CoB
Cfg01(n) == [1..n -> {0, 1}]
Covariant == got /\ IsRep(G) /\ Sites(dim, L) <= 4 /\ ex.t % 3 = 0 /\ ex.o % 3 = 0 =>
    \A s \in Cfg01(Sites(dim, L)), x \in Gens(dim, L, sy, ex) : CMul(UnitPow(x[2] \div 3), PsiSum(G, CoA, CoB, Act(x[1], s))) = PsiSum(G, CoA, CoB, s)
Invariant == got /\ Sites(dim, L) <= 4 => \A s \in Cfg01(Sites(dim, L)), x \in Gens(dim, L, sy, ex) :
    LogSum({<<a, 0>> : a \in Elements(G)}, CoA, CoB, Act(x[1], s)) = LogSum({<<a, 0>> : a \in Elements(G)}, CoA, CoB, s)
CA1 == <<1, 2, 3, 1, 2>>
CB1 == <<3, 1, 1, 2, 1>>
=============================================================================
