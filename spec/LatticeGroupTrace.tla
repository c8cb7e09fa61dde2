------------------------- MODULE LatticeGroupTrace -------------------------
EXTENDS LatticeGroup, TraceBase
Start(c) == 0
Step(c, s, e) == s
SetOf(q) == {q[i] : i \in 1..Len(q)}
\* quantised twelfth roots of unity
Cos == <<1000000, 866025, 500000, 0, -500000, -866025, -1000000, -866025, -500000, 0, 500000, 866025>>
Root(k) == <<Cos[(k % 12) + 1], Cos[((k + 9) % 12) + 1]>>
Fails(c, s, e) ==
    LET H == Group(e.dim, e.L, SetOf(e.sy), e.ex)
        rec == {[p |-> e.el[i].p, sg |-> e.el[i].sg] : i \in 1..Len(e.el)}
        E == Elements(H)
        Chi0(g) == (CHOOSE x \in H : x[1] = g)[2]
    IN (IF \A i \in 1..Len(e.el) : e.el[i].ok THEN {} ELSE {"signed-permutation"})
       \cup (IF Cardinality(rec) = Len(e.el) THEN {} ELSE {"distinct"})
       \cup (IF rec = E THEN {} ELSE {"generated-group"})
       \cup (IF ~IsRep(H) THEN {} ELSE
             IF \A i \in 1..Len(e.el) : LET g == [p |-> e.el[i].p, sg |-> e.el[i].sg] IN g \in E => CNear(e.el[i].f, Root(Chi0(g)), 3) THEN {} ELSE {"factor"})
TraceInit == TInit /\ dim = 0 /\ L = 0 /\ sy = 0 /\ ex = 0 /\ G = 0 /\ got = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
