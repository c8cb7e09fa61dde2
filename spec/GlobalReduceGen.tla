-------------------------- MODULE GlobalReduceGen --------------------------
(* Histories of calls: each has its own devices per process, batch sizes, data and weights.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
R == atoi(IOEnv.VF_R)
D == atoi(IOEnv.VF_D)
VARIABLES hist, dev, done
vars == <<hist, dev, done>>
DevLists == {<<i>> : i \in 1..D} \cup {<<i, j>> : i, j \in 1..D} \cup {<<i, j, k>> : i, j, k \in 1..D}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
DevSets == {s \in DevLists : Distinct(s)}
RndDev(u) == [r \in 1..R |-> RandomElement(DevSets)]
Ops == {"sum", "mean", "var", "cov", "gather", "bcast"}
Entry(K, cpx) == [k \in 1..K |-> <<RandomElement(-3..3), IF cpx THEN RandomElement(-3..3) ELSE 0>>]
Block(nd, b, K, cpx) == [d \in 1..nd |-> [i \in 1..b |-> Entry(K, cpx)]]
WBlock(nd, b) == [d \in 1..nd |-> [i \in 1..b |-> RandomElement({0, 1, 1, 2, 3, 4})]]
\* the first weight is positive so that the total weight is
Wgt(nd, bs) == [r \in 1..R |-> LET w == WBlock(nd[r], bs[r]) IN [w EXCEPT ![1][1] = 1 + RandomElement(0..3)]]
MkEvent(op, K, cpx, bs, nd) ==
       [op |-> op, cpx |-> cpx, K |-> K,
        \* shape of an entry: numbers, vectors or matrices; a common offset of the data (variance only)
        form |-> IF op \in {"cov", "bcast"} THEN "vec" ELSE IF K = 4 THEN "mat" ELSE IF K = 1 THEN RandomElement({"vec", "num", "num"}) ELSE "vec",
        off |-> IF op = "var" THEN RandomElement({0, 30000000}) ELSE 0, dev |-> dev, root |-> RandomElement(0..(R - 1)), len |-> RandomElement(0..5),
        data |-> [r \in 1..R |-> Block(nd[r], bs[r], K, cpx)], w |-> Wgt(nd, bs)]
Init == hist = <<>> /\ dev \in [1..R -> {<<i>> : i \in 1..D}] /\ done = FALSE
MaxLen == 7
DoOp == Len(hist) < MaxLen /\ \E op \in Ops, K \in {RandomElement(1..4)}, cpx \in {RandomElement(BOOLEAN)}, bs \in {[r \in 1..R |-> RandomElement(1..3)]} :
           hist' = Append(hist, MkEvent(op, K, cpx, bs, [r \in 1..R |-> Len(dev[r])])) /\ UNCHANGED <<dev, done>>
SetDev == Len(hist) < MaxLen /\ dev' = RndDev(0) /\ UNCHANGED <<hist, done>>
Stop == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, dev>>
Next == DoOp \/ SetDev \/ Stop
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([steps |-> hist]))
=============================================================================
