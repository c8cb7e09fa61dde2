----------------------------- MODULE ParamCodec -----------------------------
(* The parameter vector as coordinate system of a parameter tree. The tree is a sequence of real      *)
(* degrees of freedom (dofs); a codec is a bijection from vector entries to dofs. Part two defines     *)
(* the derivatives of the polynomial test networks with respect to the dofs.                           *)
EXTENDS Num, TLC

\* ---- tree layout: leaves of given sizes, real or complex; dof order: leaf by leaf, all real parts, then imaginary parts
DofCount(sizes, cpx) == SumSeq([i \in 1..Len(sizes) |-> IF cpx THEN 2 * sizes[i] ELSE sizes[i]])

\* ---- design model: reading, writing and updating through the codec
CONSTANTS MaxP, Vals
VARIABLES P, tree, M, nw
vars == <<P, tree, M, nw>>
Bijections(p) == {f \in [1..p -> 1..p] : \A i, j \in 1..p : i # j => f[i] # f[j]}
Decode(m, v) == [d \in 1..Len(v) |-> v[CHOOSE k \in 1..Len(v) : m[k] = d]]
Encode(m, t) == [k \in 1..Len(t) |-> t[m[k]]]
Init == /\ P \in 1..MaxP /\ tree \in [1..P -> Vals] /\ M \in Bijections(P) /\ nw = 0
Write == \E v \in [1..P -> Vals] : tree' = Decode(M, v)
Update == \E v \in [1..P -> Vals] : tree' = [d \in 1..P |-> tree[d] + Decode(M, v)[d]]
WriteTree == \E t \in [1..P -> Vals] : tree' = t
WriteBack == tree' = Decode(M, Encode(M, tree))
Next == nw < 2 /\ nw' = nw + 1 /\ (Write \/ Update \/ WriteTree \/ WriteBack) /\ UNCHANGED <<P, M>>
Spec == Init /\ [][Next]_vars
RoundTrip == \A v \in [1..P -> Vals] : Encode(M, Decode(M, v)) = v
ReadBack == Decode(M, Encode(M, tree)) = tree
Additive == \A v \in [1..P -> Vals] : Encode(M, [d \in 1..P |-> tree[d] + Decode(M, v)[d]]) = [k \in 1..P |-> Encode(M, tree)[k] + v[k]]

\* ---- test networks: coefficients vanish on the all-zero configuration
CoA(j, s) == SumSeq([i \in 1..Len(s) |-> (i + j) * s[i]])
CoB(j, s) == s[1] * ((j % 3) - 1) + (IF Len(s) > 1 THEN s[2] ELSE 0)
\* number of parameters (complex ones count once); for "two" n1 belong to the first network
IM(z) == <<-z[2], z[1]>>
\* x_j, y_j: real and imaginary part of parameter j in dof order given by the recorder: tr.re, tr.im
Value(kind, n1, tr, s) ==
    LET n == Len(tr.re)
        term(j) == LET x == tr.re[j] y == tr.im[j] A == CoA(j, s) B == CoB(j, s) IN
            CASE kind = "real" -> <<A * x, B * x * x>>
              [] kind = "realout" -> <<A * x + B * x * x, 0>>
              [] kind = "holo" -> CAdd(<<A * x, A * y>>, IM(CScale(B, CMul(<<x, y>>, <<x, y>>))))
              [] kind = "nonholo" -> <<A * x + B * y * y, B * x * y>>
              [] kind = "two" -> IF j <= n1 THEN <<A * x + B * x * x, 0>> ELSE <<0, A * x + B * x * x>>
    IN CSumSeq([j \in 1..n |-> term(j)])
\* derivative with respect to the real (part = 0) or imaginary (part = 1) part of parameter j
Deriv(kind, n1, tr, s, j, part) ==
    LET x == tr.re[j] y == tr.im[j] A == CoA(j, s) B == CoB(j, s)
        hol == CAdd(<<A, 0>>, IM(CScale(2 * B, <<x, y>>)))
    IN CASE kind = "real" -> <<A, 2 * B * x>>
         [] kind = "realout" -> <<A + 2 * B * x, 0>>
         [] kind = "holo" -> IF part = 0 THEN hol ELSE IM(hol)
         [] kind = "nonholo" -> IF part = 0 THEN <<A, B * y>> ELSE <<2 * B * y, B * x>>
         [] kind = "two" -> IF j <= n1 THEN <<A + 2 * B * x, 0>> ELSE <<0, A + 2 * B * x>>
=============================================================================
