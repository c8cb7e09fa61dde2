----------------------------- MODULE OpStrings -----------------------------
(* Operators assembled from strings of local operators. A local operator is                          *)
(*   [site, map, me, diag, f]: value v (0-based) of site becomes map[v+1] with factor me[v+1]         *)
(*   (Gaussian integer), f = TRUE if a fermionic sign is attached.                                    *)
(* A string is [pre, ops] with pre a sequence of prefactors; a configuration is a sequence of values. *)
EXTENDS Num, TLC

I1 == <<1, 0>>
Z0 == <<0, 0>>
Loc(name, site) ==
    CASE name = "Id" -> [site |-> site, map |-> <<0, 1>>, me |-> <<I1, I1>>, diag |-> TRUE, f |-> FALSE]
      [] name = "Sx" -> [site |-> site, map |-> <<1, 0>>, me |-> <<I1, I1>>, diag |-> FALSE, f |-> FALSE]
      [] name = "Sy" -> [site |-> site, map |-> <<1, 0>>, me |-> <<<<0, 1>>, <<0, -1>>>>, diag |-> FALSE, f |-> FALSE]
      [] name = "Sz" -> [site |-> site, map |-> <<0, 1>>, me |-> <<<<-1, 0>>, I1>>, diag |-> TRUE, f |-> FALSE]
      [] name = "Sp" -> [site |-> site, map |-> <<1, 0>>, me |-> <<I1, Z0>>, diag |-> FALSE, f |-> FALSE]
      [] name = "Sm" -> [site |-> site, map |-> <<0, 0>>, me |-> <<Z0, I1>>, diag |-> FALSE, f |-> FALSE]
      [] name = "n" -> [site |-> site, map |-> <<0, 1>>, me |-> <<Z0, I1>>, diag |-> TRUE, f |-> FALSE]
      [] name = "c+" -> [site |-> site, map |-> <<1, 0>>, me |-> <<I1, Z0>>, diag |-> FALSE, f |-> TRUE]
      [] name = "c" -> [site |-> site, map |-> <<1, 0>>, me |-> <<Z0, I1>>, diag |-> FALSE, f |-> TRUE]

\* sign from the occupied sites that follow
Parity(s, site) == IF SumSeq([j \in 1..Len(s) |-> IF j > site /\ s[j] = 1 THEN 1 ELSE 0]) % 2 = 1 THEN -1 ELSE 1

\* a weighted configuration [s, m] under a local operator
Act(o, c) == LET v == c.s[o.site]
                 m == CMul(c.m, o.me[v + 1])
             IN [s |-> [c.s EXCEPT ![o.site] = o.map[v + 1]], m |-> IF o.f THEN CScale(Parity(c.s, o.site), m) ELSE m]
RECURSIVE ActAll(_, _, _)
ActAll(ops, k, c) == IF k = 0 THEN c ELSE ActAll(ops, k - 1, Act(ops[k], c))     \* the rightmost operator acts first

\* prefactors: numbers, or functions a + b * (sum of the call arguments)
PreVal(p, args) == IF p.kind = "num" THEN p.v ELSE CAdd(p.v, CScale(SumSeq(args), p.w))
RECURSIVE PreProd(_, _, _)
PreProd(pre, k, args) == IF k = 0 THEN I1 ELSE CMul(PreVal(pre[k], args), PreProd(pre, k - 1, args))
StrOn(str, s, args) == ActAll(str.ops, Len(str.ops), [s |-> s, m |-> PreProd(str.pre, Len(str.pre), args)])

\* ---- definition: matrix element between s and t is the sum over strings
Elem(strs, s, t, args) == CSumSeq([i \in 1..Len(strs) |-> LET r == StrOn(strs[i], s, args) IN IF r.s = t THEN r.m ELSE Z0])
Reached(strs, s, args) == {StrOn(strs[i], s, args).s : i \in 1..Len(strs)}

\* ---- the procedure: pad to equal length with identities on the first site, merge diagonal strings into the
\* first of them, drop vanishing elements keeping the order
Pad(str, n, lDim) == [str EXCEPT !.ops = [k \in 1..(n - Len(str.ops)) |-> [site |-> 1, map |-> [v \in 1..lDim |-> v - 1],
                        me |-> [v \in 1..lDim |-> I1], diag |-> TRUE, f |-> FALSE]] \o str.ops]
MaxLen0(strs) == LET S == {Len(strs[i].ops) : i \in 1..Len(strs)} IN CHOOSE m \in S : \A x \in S : x <= m
IsDiag(str) == \A k \in 1..Len(str.ops) : str.ops[k].diag
Entries(strs, s, args, lDim) ==
    LET n == MaxLen0(strs)
        raw == Force([i \in 1..Len(strs) |-> StrOn(Pad(strs[i], n, lDim), s, args)])
        dg == {i \in 1..Len(strs) : IsDiag(strs[i])}
        first == CHOOSE i \in dg : \A j \in dg : i <= j
        tot == CSumSeq([i \in 1..Len(strs) |-> IF i \in dg THEN raw[i].m ELSE Z0])
        merged == IF dg = {} THEN raw ELSE [i \in 1..Len(strs) |-> IF i = first THEN [raw[i] EXCEPT !.m = tot]
                                                                   ELSE IF i \in dg THEN [raw[i] EXCEPT !.m = Z0] ELSE raw[i]]
    IN SelectSeq(merged, LAMBDA x : x.m # Z0)
SumOver(es, t) == CSumSeq([i \in 1..Len(es) |-> IF es[i].s = t THEN es[i].m ELSE Z0])

\* ---- design model
CONSTANTS NSites, Names, MaxStrs, MaxStrLen, Values
Vals1 == {<<1, 0>>}
Vals2 == {<<1, 0>>, <<0, -2>>}
Sites == 1..NSites
Pool == {Loc(nm, i) : nm \in Names, i \in Sites}
VARIABLES strs, cur
vars == <<strs, cur>>
Init == strs = <<>> /\ cur = <<>>
\* strings are written factor by factor, and added at any time
Write == Len(cur) < MaxStrLen /\ Len(strs) < MaxStrs /\ \E o \in Pool : cur' = Append(cur, o) /\ UNCHANGED strs
Add == /\ cur # <<>> /\ \E v \in Values : strs' = Append(strs, [pre |-> <<[kind |-> "num", v |-> v, w |-> Z0]>>, ops |-> cur])
       /\ cur' = <<>>
Next == Write \/ Add
Spec == Init /\ [][Next]_vars
Configs == [Sites -> {0, 1}]
\* the procedure reports exactly the operator's matrix
Faithful == strs # <<>> => \A s \in Configs : LET es == Entries(strs, s, <<>>, 2) IN
               \A t \in Configs : SumOver(es, t) = Elem(strs, s, t, <<>>)
\* nothing vanishing is reported, off-diagonal strings are not repeated
Tight == strs # <<>> => \A s \in Configs : Len(Entries(strs, s, <<>>, 2)) <=
               Cardinality({i \in 1..Len(strs) : ~IsDiag(strs[i])}) + 1

\* canonical anticommutation relations, in the context of any string to the left and right (cur)
Mat(ops, s, t) == LET r == ActAll(ops, Len(ops), [s |-> s, m |-> I1]) IN IF r.s = t THEN r.m ELSE Z0
Delta(i, j) == IF i = j THEN 1 ELSE 0
Res(ops, s) == ActAll(ops, Len(ops), [s |-> s, m |-> I1])
At(r, t) == IF r.s = t THEN r.m ELSE Z0
\* x + y = k z as operators on s
SumIs(x, y, k, z) == \A t \in {x.s, y.s, z.s} : CAdd(At(x, t), At(y, t)) = CScale(k, At(z, t))
CAR == \A s \in Configs : LET base == Res(cur, s) IN \A i, j \in Sites :
        LET W(a, b) == Res(cur \o <<a, b>>, s) V(a, b) == Res(<<a, b>> \o cur, s) IN
        /\ SumIs(W(Loc("c", i), Loc("c+", j)), W(Loc("c+", j), Loc("c", i)), Delta(i, j), base)
        /\ SumIs(V(Loc("c", i), Loc("c+", j)), V(Loc("c+", j), Loc("c", i)), Delta(i, j), base)
        /\ SumIs(W(Loc("c", i), Loc("c", j)), W(Loc("c", j), Loc("c", i)), 0, base)
        /\ SumIs(V(Loc("c+", i), Loc("c+", j)), V(Loc("c+", j), Loc("c+", i)), 0, base)
        /\ i = j => SumIs(W(Loc("c+", i), Loc("c", i)), [base EXCEPT !.m = Z0], 1, Res(Append(cur, Loc("n", i)), s))
=============================================================================
