---------------------------- MODULE OutputLogGen ----------------------------
EXTENDS OutputLog, Json, IOUtils
GR == atoi(IOEnv.VF_R)
VARIABLES hist, done, used, run
gvars == <<hist, done, used, run>>
Rnd(S) == RandomElement(S)
GGroups == {"/", "a", "b", "a/c"}
MaxLen == 22
\* shape (number of entries, 0: scalar) of a value, fixed by its name
ShapeOf(nm) == CASE nm \in {"mean", "ElocMean"} -> 0 [] nm \in {"variance", "snr"} -> 2 [] OTHER -> 3
Row(n) == [i \in 1..(IF n = 0 THEN 1 ELSE n) |-> Rnd(-99..99)]
RowN(nm) == Row(ShapeOf(nm))
Obs == {<<k, n>> : k \in {"energy", "X"}, n \in {"mean", "variance", "MC_error"}}
Meta == {"ElocMean", "snr", "spectrum"}
GInit == Init /\ hist = <<>> /\ done = FALSE /\ used = {} /\ run = {}
T(u) == Rnd({0, 1, 2, 5, 9, 14, 30})
Put2(e) == hist' = Append(hist, e)
ItemsObs(u) == LET S == Rnd({X \in SUBSET Obs : Cardinality(X) \in 1..3}) IN S
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A x \in S : \E i \in 1..Cardinality(S) : s[i] = x
GOpen == /\ \E ap \in {Rnd(1..4) # 1}, g \in {Rnd(GGroups)} :
            /\ Put2([op |-> "open", ap |-> ap, g |-> g, dflt |-> Rnd({TRUE, FALSE})]) /\ grp' = g
            /\ IF ap THEN UNCHANGED <<file, used>> ELSE file' = <<>> /\ used' = {}
         /\ run' = {} /\ UNCHANGED <<nops, written, tims, sums, opened, done>>
GSet == /\ \E g \in {Rnd(GGroups)} : Put2([op |-> "group", g |-> g]) /\ grp' = g
        /\ UNCHANGED <<file, nops, written, tims, sums, opened, done, used, run>>
GObs == /\ \E S \in {ItemsObs(0)}, t \in {T(0)} : \E it \in {LET q == SeqOf(S) IN [i \in 1..Len(q) |-> [path |-> q[i][1] \o "/" \o q[i][2], row |-> RowN(q[i][2])]]} :
            \E itv \in {Force(it)} : Put2([op |-> "obs", t |-> t, items |-> itv]) /\ file' = Write(file, grp, "obs", t, itv)
        /\ UNCHANGED <<grp, nops, written, tims, sums, opened, done, used, run>>
GMeta == /\ \E S \in {Rnd({X \in SUBSET Meta : X # {}})}, t \in {T(0)} : \E it \in {LET q == SeqOf(S) IN [i \in 1..Len(q) |-> [path |-> q[i], row |-> RowN(q[i])]]} :
            \E itv \in {Force(it)} : Put2([op |-> "meta", t |-> t, items |-> itv]) /\ file' = Write(file, grp, "meta", t, itv)
         /\ UNCHANGED <<grp, nops, written, tims, sums, opened, done, used, run>>
GCkpt == /\ \E t \in {T(0)}, r \in {Force(Row(IF grp = "a" THEN 5 ELSE 4))} : Put2([op |-> "ckpt", t |-> t, items |-> <<[path |-> "checkpoints", row |-> r]>>])
                /\ file' = Write(file, grp, "ckpt", t, <<[path |-> "checkpoints", row |-> r]>>)
         /\ UNCHANGED <<grp, nops, written, tims, sums, opened, done, used, run>>
GGet == LET n == Len(Ckpts(file, grp)) IN /\ n > 0
        /\ \E x \in {Rnd({[by |-> "last", v |-> 0], [by |-> "time", v |-> 0], [by |-> "time", v |-> Times(file, grp, "ckpt")[Rnd(1..n)][1]], [by |-> "time", v |-> Rnd(0..32)], [by |-> "index", v |-> Rnd((-n)..(n - 1))]})} : Put2([op |-> "get", by |-> x.by, v |-> x.v])
        /\ UNCHANGED <<file, grp, nops, written, tims, sums, opened, done, used, run>>
GData == /\ \E nm \in {Rnd({"d1", "d2", "d3"})}, er \in {Rnd({TRUE, FALSE})} : \E gr \in {IF er THEN "error_data" ELSE Rnd({"/", "a", "raw"})} :
            \E p \in {Path(gr, nm)} : /\ p \notin used /\ used' = used \cup {p}
            /\ \E rows \in {Force([i \in 1..Rnd(1..3) |-> <<Rnd(-99..99)>>])} : Put2([op |-> IF er THEN "error" ELSE "data", name |-> nm, g |-> gr, rank |-> Rnd(0..(GR - 1)), rows |-> rows]) /\ file' = file @@ (p :> rows)
         /\ UNCHANGED <<grp, nops, written, tims, sums, opened, done, run>>
GTime == /\ \E k \in {Rnd({"start", "add", "stop", "show"})} : \E n \in {IF k = "stop" /\ run # {} THEN Rnd(run) ELSE Rnd({"t1", "t2", "sampling"})} :
             /\ Put2([op |-> IF k = "stop" /\ n \notin run THEN "start" ELSE k, n |-> n, adv |-> Rnd(1..50)])
             /\ run' = IF k \in {"start", "stop"} THEN run \cup {n} ELSE run
         /\ UNCHANGED <<file, grp, nops, written, tims, sums, opened, done, used>>
GNext == \/ Len(hist) = 0 /\ GOpen
         \/ Len(hist) > 0 /\ Len(hist) < MaxLen /\ (GOpen \/ GSet \/ GObs \/ GMeta \/ GCkpt \/ GCkpt \/ GGet \/ GGet \/ GData \/ GTime \/ GTime)
         \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist, used, run>>
GSpec == GInit /\ [][GNext]_<<gvars, vars>>
Emit == ~done \/ PrintT("BEH " \o ToJson([steps |-> hist]))
=============================================================================
