---------------------------- MODULE FeedForward ----------------------------
(* Feed-forward networks on integer data: convolutional layers (periodic or open), dense layers and     *)
(* restricted Boltzmann machines. Values are Gaussian integers <<re, im>>; one-dimensional lattices are  *)
(* two-dimensional ones of width 1. The design model evaluates a network layer by layer, together with   *)
(* a twin that started from the translated configuration.                                               *)
EXTENDS Num
CONSTANTS N, Ws, Depth
VARIABLES a, b, l, net
vars == <<a, b, l, net>>

\* ---- convolution geometry along one axis: n sites, filter f, stride s, boundary bc
\* ("wrapsame": the lattice continued periodically by f - 1 sites, zeros outside those)
Sites(n, f, bc) == IF bc = "wrapsame" THEN n + f - 1 ELSE n
OutLen(n, f, s, bc) == IF bc = "full" THEN ((n + f - 2) \div s) + 1 ELSE CeilDiv(Sites(n, f, bc), s)
Lo(n, f, s, bc) == IF bc = "per" THEN 0 ELSE IF bc = "full" THEN f - 1 ELSE MaxI((OutLen(n, f, s, bc) - 1) * s + f - Sites(n, f, bc), 0) \div 2
\* the input site (from 0) seen by output i through filter entry m, or -1 outside the lattice
Src(i, m, n, f, s, bc) == LET x == i * s + m - Lo(n, f, s, bc) IN IF bc = "per" THEN x % n ELSE IF x >= 0 /\ x < Sites(n, f, bc) THEN x % n ELSE -1
\* a layer: [F |-> <<f1, f2>>, s |-> <<s1, s2>>, bc, w |-> w[entry][channel in][channel out], b |-> bias per channel, f |-> activation]
OutShape(sh, y) == <<OutLen(sh[1], y.F[1], y.s[1], y.bc), OutLen(sh[2], y.F[2], y.s[2], y.bc)>>
Act(f, z) == IF f = "square" THEN CMul(z, z) ELSE IF f = "relu" THEN <<MaxI(z[1], 0), 0>> ELSE z
ConvAt(x, sh, y, p, c) ==
    LET os == OutShape(sh, y) i == (p - 1) \div os[2] j == (p - 1) % os[2]
        term(m) == LET m1 == (m - 1) \div y.F[2] m2 == (m - 1) % y.F[2]
                       r == Src(i, m1, sh[1], y.F[1], y.s[1], y.bc) q == Src(j, m2, sh[2], y.F[2], y.s[2], y.bc) IN
                   IF r < 0 \/ q < 0 THEN <<0, 0>> ELSE CSumSeq([k \in 1..Len(x[1]) |-> CMul(x[r * sh[2] + q + 1][k], y.w[m][k][c])])
    IN CAdd(y.b[c], CSumSeq([m \in 1..(y.F[1] * y.F[2]) |-> term(m)]))
Conv(x, sh, y) == LET os == OutShape(sh, y) IN
    Force([p \in 1..(os[1] * os[2]) |-> Force([c \in 1..Len(y.b) |-> Act(y.f, ConvAt(x, sh, y, p, c))])])
RECURSIVE ConvNet(_, _, _, _)
ConvNet(x, sh, ls, k) == IF k > Len(ls) THEN x ELSE ConvNet(Conv(x, sh, ls[k]), OutShape(sh, ls[k]), ls, k + 1)
RECURSIVE ShapeAfter(_, _, _)
ShapeAfter(sh, ls, k) == IF k > Len(ls) THEN sh ELSE ShapeAfter(OutShape(sh, ls[k]), ls, k + 1)
Entries(sh, ls) == LET os == ShapeAfter(sh, ls, 1) IN os[1] * os[2] * Len(ls[Len(ls)].b)
Periodic(ls) == Force([i \in 1..Len(ls) |-> [ls[i] EXCEPT !.bc = "per"]])
Spins(x) == Force([i \in 1..Len(x) |-> << <<2 * x[i] - 1, 0>> >>])
TotalOf(v) == CSumSeq([i \in 1..Len(v) |-> CSumSeq(v[i])])
\* ---- dense layers: vectors of Gaussian integers
Dense(v, y) == Force([c \in 1..Len(y.b) |-> Act(y.f, CAdd(y.b[c], CSumSeq([k \in 1..Len(v) |-> CMul(v[k], y.w[k][c])])))])
RECURSIVE DenseNet(_, _, _)
DenseNet(v, ls, k) == IF k > Len(ls) THEN v ELSE DenseNet(Dense(v, ls[k]), ls, k + 1)

\* ---- design model: a periodic chain and its translated twin
Roll(x) == Force([i \in 1..Len(x) |-> x[1 + (i % Len(x))]])
Layers == {[F |-> <<f, 1>>, s |-> <<1, 1>>, bc |-> "per", w |-> [m \in 1..f |-> <<<<<<w[m], 0>>>>>>], b |-> <<<<bb, 0>>>>, f |-> g] :
               f \in {2}, w \in [1..2 -> Ws], bb \in {0, 1}, g \in {"square", "relu"}}
          \cup {[F |-> <<N + 1, 1>>, s |-> <<1, 1>>, bc |-> "per", w |-> [m \in 1..(N + 1) |-> <<<<<<IF m = 1 THEN 1 ELSE IF m = N + 1 THEN 2 ELSE 0, 0>>>>>>], b |-> <<<<0, 0>>>>, f |-> "id"]}
Init == /\ \E x \in [1..N -> 0..1] : a = Spins(Force(x)) /\ b = Roll(Spins(Force(x)))
        /\ l = 0 /\ net = <<>>
Next == /\ l < Depth /\ l' = l + 1
        /\ \E y \in Layers : a' = Conv(a, <<N, 1>>, y) /\ b' = Conv(b, <<N, 1>>, y) /\ net' = Append(net, y)
Spec == Init /\ [][Next]_vars
Equivariant == b = Roll(a)
Invariant == TotalOf(a) = TotalOf(b)
Shape == Len(a) = N
\* boundaries: every input site is seen equally often by a periodic filter, and an open filter sees nothing else
ASSUME \A n \in 1..5, f \in 1..4, s \in 1..2 : \A bc \in {"per", "full", "same", "wrapsame"} :
    /\ \A i \in 0..(OutLen(n, f, s, bc) - 1), m \in 0..(f - 1) : Src(i, m, n, f, s, bc) \in -1..(n - 1)
    /\ s = 1 /\ bc \in {"per", "full"} => \A x \in 0..(n - 1) :
           Cardinality({<<i, m>> \in (0..(OutLen(n, f, s, bc) - 1)) \X (0..(f - 1)) : Src(i, m, n, f, s, bc) = x}) = f
=============================================================================
