------------------------------ MODULE OutputLog ------------------------------
(* The output manager: a file is a map from data set paths to sequences of rows, a manager a current    *)
(* group and a table of timings. Every write appends one row to each data set it names and one time to  *)
(* the section's list of times.                                                                         *)
EXTENDS Num, TLC
Path(g, rest) == IF g = "/" THEN "/" \o rest ELSE "/" \o g \o "/" \o rest
Has(f, p) == p \in DOMAIN f
App(f, p, row) == IF Has(f, p) THEN [f EXCEPT ![p] = Append(@, row)] ELSE f @@ (p :> <<row>>)
RECURSIVE AppAll(_, _, _)
AppAll(f, g, items) == IF items = <<>> THEN f ELSE AppAll(App(f, Path(g, items[1].path), items[1].row), g, Tail(items))
Section(kind) == CASE kind = "obs" -> "observables" [] kind = "meta" -> "metadata" [] OTHER -> "network_checkpoints"
\* items carry their path below the section's name
Write(f, g, kind, t, items) == AppAll(App(f, Path(g, Section(kind) \o "/times"), <<t>>), g, [i \in 1..Len(items) |-> [path |-> Section(kind) \o "/" \o items[i].path, row |-> items[i].row]])
Times(f, g, kind) == LET p == Path(g, Section(kind) \o "/times") IN IF Has(f, p) THEN f[p] ELSE <<>>
Ckpts(f, g) == LET p == Path(g, "network_checkpoints/checkpoints") IN IF Has(f, p) THEN f[p] ELSE <<>>
\* indices a checkpoint query may answer with
ByIndex(f, g, i) == LET n == Len(Ckpts(f, g)) IN IF i < 0 THEN {n + 1 + i} ELSE {i + 1}
ByTime(f, g, t) == LET T == Times(f, g, "ckpt") IN {i \in 1..Len(T) : \A j \in 1..Len(T) : Abs(T[i][1] - t) <= Abs(T[j][1] - t)}
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* ---- timings
NoTime == [total |-> 0, count |-> 0, newest |-> 0, since |-> 0, shown |-> 0]
Entry(tm, n) == IF n \in DOMAIN tm THEN tm[n] ELSE NoTime
Put(tm, n, x) == (n :> x) @@ tm
StartT(tm, n, now) == Put(tm, n, [Entry(tm, n) EXCEPT !.since = now])
AddT(tm, n, d) == Put(tm, n, [Entry(tm, n) EXCEPT !.total = @ + d, !.count = @ + 1, !.newest = d])
StopT(tm, n, now) == AddT(tm, n, now - Entry(tm, n).since)
ShowT(tm) == [n \in DOMAIN tm |-> [tm[n] EXCEPT !.shown = tm[n].total]]

\* ---- design model
CONSTANTS Groups, Kinds, Names, TimesC, MaxOps
VARIABLES file, grp, nops, written, tims, sums, opened
vars == <<file, grp, nops, written, tims, sums, opened>>
Init == file = <<>> /\ grp = "/" /\ nops = 0 /\ written = <<>> /\ tims = <<>> /\ sums = [n \in Names |-> <<>>] /\ opened = 0
Count == nops < MaxOps /\ nops' = nops + 1
Reopen(ap, g) == Count /\ grp' = g /\ tims' = <<>> /\ sums' = [n \in Names |-> <<>>] /\ opened' = opened + 1
                 /\ IF ap THEN UNCHANGED <<file, written>> ELSE file' = <<>> /\ written' = <<>>
SetGroup(g) == Count /\ grp' = g /\ UNCHANGED <<file, written, tims, sums, opened>>
DoWrite(kind, nm, t) == /\ Count
    /\ LET it == IF kind = "ckpt" THEN <<[path |-> "checkpoints", row |-> <<nops>>]>> ELSE <<[path |-> nm, row |-> <<nops>>]>> IN
       file' = Write(file, grp, kind, t, it)
    /\ written' = Append(written, [g |-> grp, kind |-> kind, nm |-> nm, t |-> t, v |-> nops]) /\ UNCHANGED <<grp, tims, sums, opened>>
Interval(n, d) == Count /\ tims' = StopT(StartT(tims, n, 3), n, 3 + d) /\ sums' = [sums EXCEPT ![n] = Append(@, d)] /\ UNCHANGED <<file, grp, written, opened>>
ReopenA == \E ap \in BOOLEAN, g \in Groups : Reopen(ap, g)
SetGroupA == \E g \in Groups : SetGroup(g)
WriteA == \E k \in Kinds, nm \in Names, t \in TimesC : DoWrite(k, nm, t)
IntervalA == \E n \in Names, d \in {1, 2} : Interval(n, d)
Next == ReopenA \/ SetGroupA \/ WriteA \/ IntervalA
Spec == Init /\ [][Next]_vars
Sel(P(_)) == SelectSeq(written, P)
Exact == \A g \in Groups, k \in Kinds :
    /\ Times(file, g, k) = (LET w == Sel(LAMBDA x : x.g = g /\ x.kind = k) IN [i \in 1..Len(w) |-> <<w[i].t>>])
    /\ IF k = "ckpt" THEN Ckpts(file, g) = (LET w == Sel(LAMBDA x : x.g = g /\ x.kind = k) IN [i \in 1..Len(w) |-> <<w[i].v>>])
       ELSE \A nm \in Names : LET p == Path(g, Section(k) \o "/" \o nm) w == Sel(LAMBDA x : x.g = g /\ x.kind = k /\ x.nm = nm) IN
            (IF Has(file, p) THEN file[p] ELSE <<>>) = [i \in 1..Len(w) |-> <<w[i].v>>]
Aligned == \A g \in Groups : Len(Times(file, g, "ckpt")) = Len(Ckpts(file, g))
Lookup == \A g \in Groups, t \in TimesC : Ckpts(file, g) # <<>> => ByTime(file, g, t) # {} /\ ByIndex(file, g, -1) = {Len(Ckpts(file, g))}
Sums == \A n \in Names : Entry(tims, n).total = SumSeq(sums[n]) /\ Entry(tims, n).count = Len(sums[n])
NothingLost == [][file' # <<>> => \A p \in DOMAIN file : p \in DOMAIN file' /\ Prefix(file[p], file'[p])]_vars
=============================================================================
