--------------------------- MODULE OutputLogTrace ---------------------------
(* After every operation the whole file is recorded (dump: pairs of data set path and rows), and the    *)
(* table of timings (one per process).                                                                  *)
EXTENDS OutputLog, TraceBase
Start(c) == [f |-> <<>>, g |-> "/", tm |-> <<>>, now |-> 1000]
FileOf(s, e) ==
    CASE e.op = "open" -> IF e.ap THEN s.f ELSE <<>>
      [] e.op \in {"obs", "meta", "ckpt"} -> Write(s.f, s.g, e.op, e.t, e.items)
      [] e.op \in {"data", "error"} -> (Path(e.g, e.name) :> e.rows) @@ s.f
      [] OTHER -> s.f
TimesOf(s, e) ==
    CASE e.op = "open" -> <<>>
      [] e.op = "start" -> StartT(s.tm, e.n, s.now + e.adv)
      [] e.op = "stop" -> StopT(s.tm, e.n, s.now + e.adv)
      [] e.op = "add" -> AddT(s.tm, e.n, e.adv)
      [] e.op = "show" -> ShowT(s.tm)
      [] OTHER -> s.tm
Now(s, e) == IF e.op \in {"start", "stop", "add", "show"} THEN s.now + e.adv ELSE s.now
Step(c, s, e) == [f |-> FileOf(s, e), g |-> IF e.op \in {"open", "group"} THEN e.g ELSE s.g, tm |-> TimesOf(s, e), now |-> Now(s, e)]
Pairs(f) == {<<p, f[p]>> : p \in DOMAIN f}
Dump(e) == {<<e.dump[i][1], e.dump[i][2]>> : i \in 1..Len(e.dump)}
Answers(s, e) == CASE e.by = "time" -> ByTime(s.f, s.g, e.v) [] e.by = "last" -> ByIndex(s.f, s.g, -1) [] OTHER -> ByIndex(s.f, s.g, e.v)
TimingFails(c, s, e) ==
    LET tm == TimesOf(s, e) IN
    IF \A r \in 1..c.R : /\ {e.tims[r][i].n : i \in 1..Len(e.tims[r])} = DOMAIN tm
          /\ \A i \in 1..Len(e.tims[r]) : LET x == e.tims[r][i] IN x.n \in DOMAIN tm => Near(x.total, tm[x.n].total, 2) /\ x.count = tm[x.n].count /\ Near(x.newest, tm[x.n].newest, 2)
    THEN {} ELSE {"timings"}
ShownFails(c, s, e) == \* printed by process one only: what came on top since it was last printed
    (IF {e.shown[1][i][1] : i \in 1..Len(e.shown[1])} = DOMAIN s.tm /\ \A i \in 1..Len(e.shown[1]) : LET x == e.shown[1][i] IN x[1] \in DOMAIN s.tm => Near(x[2], s.tm[x[1]].total - s.tm[x[1]].shown, 2) THEN {} ELSE {"printed-timings"})
    \cup (IF \A r \in 2..c.R : e.shown[r] = <<>> THEN {} ELSE {"printed-by-others"})
Fails(c, s, e) ==
    (LET f == FileOf(s, e) IN
     (IF \A p \in DOMAIN f : <<p, f[p]>> \in Dump(e) THEN {} ELSE {"recorded-data"})
     \cup (IF \A x \in Dump(e) : x[1] \in DOMAIN f THEN {} ELSE {"extra-data"}))
    \cup (IF e.hasgrp THEN {} ELSE {"group-missing"})
    \cup TimingFails(c, s, e)
    \cup (IF e.op = "show" THEN ShownFails(c, s, e) ELSE {})
    \cup (IF e.op # "get" THEN {}
          ELSE (IF \A r \in 1..c.R : \E i \in Answers(s, e) : i \in 1..Len(Ckpts(s.f, s.g)) /\ e.w[r] = Ckpts(s.f, s.g)[i] /\ <<e.wt[r]>> = Times(s.f, s.g, "ckpt")[i] THEN {} ELSE {"checkpoint"})
               \cup (IF \A r \in 1..c.R : e.w[r] = e.w[1] /\ e.wt[r] = e.wt[1] THEN {} ELSE {"processes-agree"}))
TraceInit == TInit /\ file = 0 /\ grp = 0 /\ nops = 0 /\ written = 0 /\ tims = 0 /\ sums = 0 /\ opened = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
