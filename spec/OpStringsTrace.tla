--------------------------- MODULE OpStringsTrace ---------------------------
(* An evaluation records, per process and configuration, the reported connected configurations with  *)
(* their matrix elements times 10.                                                                   *)
EXTENDS OpStrings, TraceBase
Start(c) == <<>>
OpOf(t) == IF t.name = "custom" THEN [site |-> t.site, map |-> t.map, me |-> t.me, diag |-> t.diag, f |-> FALSE] ELSE Loc(t.name, t.site)
StrOf(x) == LET toks == x.a \o x.b
                pre == SelectSeq(toks, LAMBDA t : t.t # "op")
                ops == SelectSeq(toks, LAMBDA t : t.t = "op")
            IN [pre |-> [i \in 1..Len(pre) |-> IF pre[i].t = "num" THEN [kind |-> "num", v |-> pre[i].v, w |-> Z0] ELSE [kind |-> "fun", v |-> pre[i].v, w |-> pre[i].w]],
                ops |-> [i \in 1..Len(ops) |-> OpOf(ops[i])]]
Step(c, s, e) == IF e.op = "add" THEN s \o [i \in 1..Len(e.strs) |-> StrOf(e.strs[i])] ELSE s
CfgFails(st, e, s, out) ==
    LET rs == Force([i \in 1..Len(st) |-> StrOn(st[i], s, e.args)])
        Ts == {rs[i].s : i \in 1..Len(rs)} \cup {out[k][1] : k \in 1..Len(out)}
        Want(t) == CSumSeq([i \in 1..Len(rs) |-> IF rs[i].s = t THEN rs[i].m ELSE Z0])
        Got(t) == LET sel == SelectSeq(out, LAMBDA x : x[1] = t) IN CSumSeq([k \in 1..Len(sel) |-> sel[k][2]])
    IN IF \A t \in Ts : CNear(Got(t), CScale(10, Want(t)), 1) THEN {} ELSE {"matrix-elements"}
Fails(c, s, e) ==
    IF e.op # "eval" THEN {}
    ELSE UNION {IF Len(e.out[r]) # Len(e.cfgs) THEN {"entries-per-configuration"}
                ELSE UNION {CfgFails(s, e, e.cfgs[i], e.out[r][i]) : i \in 1..Len(e.cfgs)} : r \in 1..Len(e.out)}
         \cup (IF \A r \in 1..Len(e.out) : e.coll[r] = e.coll[1] THEN {} ELSE {"collectives-match"})
TraceInit == TInit /\ strs = <<>> /\ cur = <<>>
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
