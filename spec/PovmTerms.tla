----------------------------- MODULE PovmTerms -----------------------------
(* Assembly of an evolution operator from named terms on site tuples. The design model follows the   *)
(* grouping: terms are collected by leading site, larger terms first; terms on a prefix of the chosen *)
(* tuple join its group; groups are padded with further sites to equal size. The order in which       *)
(* tuples of one size are visited is arbitrary.                                                      *)
EXTENDS Num, TLC

\* ---------------------------------------------------------------- definition
\* omega with parameters <<p, q, r>>: integer entries
Om(pqr, a, b) == ((pqr[1] * a + pqr[2] * b + pqr[3] * a * b) % 5) - 2
\* index of the outcomes on a tuple of sites (0-based values, first site most significant)
RECURSIVE IdxTo(_, _, _)
IdxTo(s, sites, k) == IF k = 0 THEN 0 ELSE 4 * IdxTo(s, sites, k - 1) + s[sites[k]]
Idx(s, sites) == IdxTo(s, sites, Len(sites))
Outside(s, t, sites) == \A i \in 1..Len(s) : (\A k \in 1..Len(sites) : sites[k] # i) => s[i] = t[i]
\* terms: [sites, pqr, w]
Element(terms, s, t) == SumSeq([i \in 1..Len(terms) |-> IF Outside(s, t, terms[i].sites)
                           THEN terms[i].w * Om(terms[i].pqr, Idx(s, terms[i].sites), Idx(t, terms[i].sites)) ELSE 0])

\* ---------------------------------------------------------------- design model
CONSTANTS N, MaxTerms, MaxSize
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Tuples == {q \in UNION {[1..k -> 1..N] : k \in 1..MaxSize} : Distinct(q)}
VARIABLES terms, phase, left, site, size, groups, todo
vars == <<terms, phase, left, site, size, groups, todo>>
Init == terms = <<>> /\ phase = "add" /\ left = {} /\ site = 0 /\ size = 0 /\ groups = {} /\ todo = {}
Add == /\ phase = "add" /\ Len(terms) < MaxTerms
       /\ \E q \in Tuples : terms' = Append(terms, q)
       /\ UNCHANGED <<phase, left, site, size, groups, todo>>
MaxInt == LET S == {Len(terms[i]) : i \in 1..Len(terms)} IN CHOOSE m \in S : \A x \in S : x <= m
MaxSite == LET S == UNION {{terms[i][k] : k \in 1..Len(terms[i])} : i \in 1..Len(terms)} IN CHOOSE m \in S : \A x \in S : x <= m
TuplesOf(st, n, lf) == {terms[i] : i \in {j \in lf : terms[j][1] = st /\ Len(terms[j]) = n}}
Compile == /\ phase = "add" /\ terms # <<>>
           /\ phase' = "run" /\ left' = 1..Len(terms) /\ site' = 1 /\ size' = MaxInt /\ groups' = {}
           /\ todo' = TuplesOf(1, MaxInt, 1..Len(terms)) /\ UNCHANGED terms
IsPrefix0(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
RECURSIVE PadTo(_, _, _)
PadTo(q, n, top) == IF Len(q) >= n THEN q ELSE
    LET free == {x \in 1..top : \A k \in 1..Len(q) : q[k] # x} IN PadTo(Append(q, CHOOSE x \in free : TRUE), n, top)
Group == /\ phase = "run" /\ todo # {}
         /\ \E q \in todo :
              LET used == {i \in left : IsPrefix0(terms[i], q)} IN
              /\ groups' = groups \cup {[on |-> PadTo(q, MaxInt, MaxSite), used |-> used]}
              /\ left' = left \ used
              /\ todo' = todo \ {q}
         /\ UNCHANGED <<terms, phase, site, size>>
\* smaller tuples of the same leading site, then the next site
Move == /\ phase = "run" /\ todo = {}
        /\ IF size > 1 THEN size' = size - 1 /\ site' = site /\ todo' = TuplesOf(site, size - 1, left) /\ phase' = phase
           ELSE IF site < MaxSite THEN size' = MaxInt /\ site' = site + 1 /\ todo' = TuplesOf(site + 1, MaxInt, left) /\ phase' = phase
           ELSE phase' = "done" /\ UNCHANGED <<site, size, todo>>
        /\ UNCHANGED <<terms, left, groups>>
\* further terms can be added later: everything is assembled anew
Reopen == phase = "done" /\ Len(terms) < MaxTerms /\ phase' = "add" /\ UNCHANGED <<terms, left, site, size, groups, todo>>
Next == Add \/ Compile \/ Group \/ Move \/ Reopen
Spec == Init /\ [][Next]_vars
Once == phase = "done" => \A i \in 1..Len(terms) : Cardinality({g \in groups : i \in g.used}) = 1
OnSites == phase # "add" => \A g \in groups : Distinct(g.on) /\ Len(g.on) = MaxInt /\ \A i \in g.used : IsPrefix0(terms[i], g.on)
=============================================================================
