--------------------------- MODULE PovmTermsTrace ---------------------------
(* State: the registry (name -> [kind, size, pqr]) and the terms of the two operators.                *)
EXTENDS PovmTerms, TraceBase
Standard == {"X", "Y", "Z", "XX", "YY", "ZZ", "decayup", "decaydown", "dephasing"}
Start(c) == [reg |-> <<>>, ops |-> <<<<>>, <<>>>>]
RegNames(s) == {s.reg[i].name : i \in 1..Len(s.reg)}
Look(s, nm) == LET i == CHOOSE i \in 1..Len(s.reg) : s.reg[i].name = nm IN s.reg[i]
Free(s, nm) == nm \notin RegNames(s) /\ nm \notin Standard
NewReg(s, e) == IF Free(s, e.name) THEN Append(s.reg, [name |-> e.name, kind |-> e.kind, size |-> e.size, pqr |-> e.pqr]) ELSE s.reg
\* how the registry shows itself: [kind, name, a few entries], sorted by name by the recorder
ShowFails(reg, e) ==
    IF /\ Len(e.shown) = Len(reg)
       /\ \A i \in 1..Len(reg) : \E k \in 1..Len(e.shown) :
            /\ e.shown[k].name = reg[i].name /\ e.shown[k].kind = reg[i].kind
            /\ e.shown[k].dim = Pow(4, reg[i].size)
            /\ \A j \in 1..Len(e.shown[k].ent) : e.shown[k].ent[j][3] = 100 * Om(reg[i].pqr, e.shown[k].ent[j][1], e.shown[k].ent[j][2])
    THEN {} ELSE {"registry"}
Term(c, s, k) == LET x == c.descs[k] IN [sites |-> x.sites, w |-> x.w, pqr |-> Look(s, x.name).pqr]
Step(c, s, e) ==
    CASE e.op = "reg" -> [s EXCEPT !.reg = NewReg(s, e)]
      [] e.op = "add" -> [s EXCEPT !.ops = [s.ops EXCEPT ![e.o] = Append(s.ops[e.o], Term(c, s, e.k))]]
      [] OTHER -> s
CfgFails(tm, s, out) ==
    LET n == Len(s)
        \* everything reported and everything some term leads to; all other elements vanish on both sides
        Img(sites) == {[i \in 1..n |-> IF \E k \in 1..Len(sites) : sites[k] = i THEN v[CHOOSE k \in 1..Len(sites) : sites[k] = i] ELSE s[i]] : v \in [1..Len(sites) -> 0..3]}
        All == UNION {Img(tm[i].sites) : i \in 1..Len(tm)} \cup {out[k][1] : k \in 1..Len(out)}
        Got(t) == LET sel == SelectSeq(out, LAMBDA x : x[1] = t) IN SumSeq([k \in 1..Len(sel) |-> sel[k][2]])
    IN IF \A t \in All : Near(Got(t), 10 * Element(tm, s, t), 1) THEN {} ELSE {"operator-elements"}
Fails(c, s, e) ==
    CASE e.op = "reg" -> (IF e.ok = Free(s, e.name) THEN {} ELSE {"unique-names"}) \cup ShowFails(NewReg(s, e), e)
      [] e.op = "eval" -> IF Len(e.out) # Len(e.cfgs) THEN {"entries-per-configuration"}
                          ELSE UNION {CfgFails(s.ops[e.o], e.cfgs[i], e.out[i]) : i \in 1..Len(e.cfgs)}
      [] OTHER -> {}
TraceInit == TInit /\ terms = 0 /\ phase = 0 /\ left = 0 /\ site = 0 /\ size = 0 /\ groups = 0 /\ todo = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
