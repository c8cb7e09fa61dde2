---------------------------- MODULE LatticeGroup ----------------------------
(* Lattice symmetries as signed permutations: (g s)_i = sg * s_{p_i} in the +1/-1 picture. Factors are *)
(* twelfth roots of unity, written as exponents. A group is a function from elements to exponents.     *)
EXTENDS Num, TLC
\* ---- generators on a chain (1) or square lattice (2) of linear size L; sites are numbered row by row from 1
Site(L, i, j) == ((i % L) * L) + (j % L) + 1
Row(L, n) == (n - 1) \div L
Col(L, n) == (n - 1) % L
Sites(dim, L) == IF dim = 1 THEN L ELSE L * L
Id(dim, L) == [p |-> [n \in 1..Sites(dim, L) |-> n], sg |-> 1]
Perm(dim, L, f(_)) == [p |-> Force([n \in 1..Sites(dim, L) |-> f(n)]), sg |-> 1]
Shift(L) == Perm(1, L, LAMBDA n : ((n - 2 + L) % L) + 1)
Mirror(L) == Perm(1, L, LAMBDA n : L + 1 - n)
ShiftX(L) == Perm(2, L, LAMBDA n : Site(L, Row(L, n), Col(L, n) - 1 + L))
ShiftY(L) == Perm(2, L, LAMBDA n : Site(L, Row(L, n) - 1 + L, Col(L, n)))
MirrorY(L) == Perm(2, L, LAMBDA n : Site(L, L - 1 - Row(L, n), Col(L, n)))
MirrorX(L) == Perm(2, L, LAMBDA n : Site(L, Row(L, n), L - 1 - Col(L, n)))
Rot(L) == Perm(2, L, LAMBDA n : Site(L, L - 1 - Col(L, n), Row(L, n)))
FlipAll(dim, L) == [Id(dim, L) EXCEPT !.sg = -1]
\* sy: set of chosen symmetries, ex: record of exponents of their factors; the result is a set of <<generator, exponent>>
Gens(dim, L, sy, ex) ==
    (IF "translation" \in sy THEN IF dim = 1 THEN {<<Shift(L), ex.t>>} ELSE {<<ShiftX(L), ex.t>>, <<ShiftY(L), ex.t>>} ELSE {})
    \cup (IF "reflection" \in sy THEN IF dim = 1 THEN {<<Mirror(L), ex.r>>} ELSE {<<MirrorX(L), ex.r>>, <<MirrorY(L), ex.r>>} ELSE {})
    \cup (IF "rotation" \in sy /\ dim = 2 THEN {<<Rot(L), ex.o>>} ELSE {})
    \cup (IF "spinflip" \in sy THEN {<<FlipAll(dim, L), ex.s>>} ELSE {})
Mul(a, b) == [p |-> Force([n \in 1..Len(a.p) |-> b.p[a.p[n]]]), sg |-> a.sg * b.sg]      \* first b, then a
Inv(a) == [p |-> [n \in 1..Len(a.p) |-> CHOOSE m \in 1..Len(a.p) : a.p[m] = n], sg |-> a.sg]
Act(a, s) == [n \in 1..Len(s) |-> IF a.sg = 1 THEN s[a.p[n]] ELSE 1 - s[a.p[n]]]
\* breadth first closure: set of <<element, exponent>>; the factors are a representation iff every element has one exponent
RECURSIVE Close(_, _, _)
Close(done, front, gens) ==
    LET new == {<<Mul(g[1], x[1]), (g[2] + x[2]) % 12>> : g \in gens, x \in front} \ done
    IN IF new = {} THEN done ELSE Close(done \cup new, new, gens)
Group(dim, L, sy, ex) == Close({<<Id(dim, L), 0>>}, {<<Id(dim, L), 0>>}, Gens(dim, L, sy, ex))
Elements(G) == {x[1] : x \in G}
IsRep(G) == Cardinality(Elements(G)) = Cardinality(G)
Order1(L, sy) == (IF "translation" \in sy THEN L ELSE 1) * (IF "reflection" \in sy /\ L > (IF "translation" \in sy THEN 2 ELSE 1) THEN 2 ELSE 1)
                 * (IF "spinflip" \in sy THEN 2 ELSE 1)
Order2(L, sy) == (IF "translation" \in sy THEN L * L ELSE 1)
                 * (IF {"rotation", "reflection"} \subseteq sy THEN 8 ELSE IF sy \cap {"rotation", "reflection"} # {} THEN 4 ELSE 1)
                 * (IF "spinflip" \in sy THEN 2 ELSE 1)

\* ---- design model: all choices; group laws, and how a symmetrised amplitude transforms
CONSTANTS Max1, Max2, Syms, Exps
VARIABLES dim, L, sy, ex, G, got
vars == <<dim, L, sy, ex, G, got>>
Pick(S, name, dflt) == IF name \in S THEN Exps ELSE {dflt}
Init == /\ dim \in {1, 2} /\ L \in 1..(IF dim = 1 THEN Max1 ELSE Max2)
        /\ sy \in {X \in SUBSET Syms : dim = 1 => "rotation" \notin X}
        /\ ex \in [t : Pick(sy, "translation", 0), r : Pick(sy, "reflection", 0), o : Pick(sy, "rotation", 0), s : Pick(sy, "spinflip", 0)]
        /\ G = {} /\ got = FALSE
Generate == ~got /\ got' = TRUE /\ G' = Group(dim, L, sy, ex) /\ UNCHANGED <<dim, L, sy, ex>>
Next == Generate
Spec == Init /\ [][Next]_vars
Small == Cardinality(G) <= 40
Closed == got /\ Small => \A a, b \in Elements(G) : Mul(a, b) \in Elements(G)
Inverses == got /\ Small => \A a \in Elements(G) : Inv(a) \in Elements(G) /\ Mul(a, Inv(a)) = Id(dim, L)
Chi(a) == (CHOOSE x \in G : x[1] = a)[2]
Homomorphism == got /\ Small /\ IsRep(G) => \A a, b \in Elements(G) : Chi(Mul(a, b)) = (Chi(a) + Chi(b)) % 12
Trivial == got /\ ex.t = 0 /\ ex.r = 0 /\ ex.o = 0 /\ ex.s = 0 => IsRep(G) /\ \A x \in G : x[2] = 0
OrderOK == got => Cardinality(Elements(G)) = IF dim = 1 THEN Order1(L, sy) ELSE IF L >= 3 THEN Order2(L, sy) ELSE Cardinality(Elements(G))
=============================================================================
