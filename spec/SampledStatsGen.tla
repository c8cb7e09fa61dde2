-------------------------- MODULE SampledStatsGen --------------------------
(* Chains of operations on statistics objects built from two random observables.                     *)
EXTENDS SampledStats, Json, IOUtils
R == atoi(IOEnv.VF_R)
GD == atoi(IOEnv.VF_D)
VARIABLES d, bs, hist, done, lins, ests
gvars == <<vars, d, bs, hist, done, lins, ests>>
Rnd(S) == RandomElement(S)
RX(K, N, cpx) == [i \in 1..N |-> [k \in 1..K |-> <<Rnd(-2..2), IF cpx THEN Rnd(-2..2) ELSE 0>>]]
GInit == /\ d \in 1..GD
         /\ n = 0 /\ done = FALSE /\ lins = <<<<>>, <<>>>> /\ ests = <<>>
         /\ \E ver \in 1..8 : \E B \in {[r \in 1..R |-> Rnd(IF R * d > 4 THEN 1..1 ELSE IF R * d > 2 THEN 1..2 ELSE 2..4)]} :
            \E lay \in {Flat([r \in 1..R |-> [i \in 1..d |-> B[r]]])} :
            \E K1 \in {Rnd(1..2)}, K2 \in {Rnd(1..3)}, c1 \in {Rnd(BOOLEAN)}, c2 \in {Rnd(BOOLEAN)} :
            \E N \in {SumSeq(lay)} :
            \E x1 \in {RX(K1, N, c1)}, x2 \in {RX(K2, N, c2)}, a \in {[i \in 1..N |-> IF N > 6 THEN 1 ELSE Rnd({1, 1, 2})]} :
               /\ bs = B
               /\ objs = <<Base(K1, lay, x1, a), Base(K2, lay, x2, a)>>
               /\ hist = <<[op |-> "base", x |-> x1, K |-> K1, a |-> a, lay |-> lay, cpx |-> c1], [op |-> "base", x |-> x2, K |-> K2, a |-> a, lay |-> lay, cpx |-> c2]>>
MaxLen == 9
Ix == 1..Len(objs)
Add(h, o, l) == /\ Fits(o, o) /\ hist' = Append(hist, h) /\ objs' = Append(objs, o) /\ lins' = Append(lins, l)
Ask(h) == hist' = Append(hist, h) /\ UNCHANGED <<objs, lins>>
Prev(i) == objs[i]
OpSelect == \E i \in Ix : \E ixs \in {[j \in 1..Rnd(1..2) |-> Rnd(1..objs[i].shape[1])]} :
               Add([op |-> "select", o |-> i, ixs |-> ixs], Select(objs[i], ixs), lins[i])
OpSubset == \E i \in Ix : \E st \in {Rnd({0, 0, 1, 2})}, en \in {Rnd({1, 2, 3, 9})}, sp \in {Rnd({1, 2, 3})} :
               LET o == Subset(objs[i], st, en, sp) IN
               /\ st < en /\ \A b \in 1..Len(o.lay) : o.lay[b] > 0
               /\ Add([op |-> "subset", o |-> i, st |-> st, en |-> en, sp |-> sp], o, Append(lins[i], <<st, en, sp>>))
OpMap == \E i \in Ix : \E f \in {Rnd({"conj", "real", "imag", "sq", "abs2", "affine"})} : Add([op |-> "map", o |-> i, f |-> f], Map(objs[i], f), lins[i])
OpLin == \E i \in Ix : /\ Len(objs[i].shape) = 2
                       /\ \E M \in {[r \in 1..Rnd(1..2) |-> [k \in 1..objs[i].shape[1] |-> Rnd({-1, 0, 1, 2})]]}, f \in {Rnd({"id", "real", "conj"})} :
                            Add([op |-> "lin", o |-> i, M |-> M, f |-> f], Lin(Map(objs[i], f), M), lins[i])
OpCov == \E i, j \in Ix : /\ Len(objs[i].shape) = 1 /\ Len(objs[j].shape) = 1 /\ lins[i] = lins[j]
                          /\ CovFits(objs[i], objs[j])
                          /\ Add([op |-> "covdata", o |-> i, p |-> j], CovData(objs[i], objs[j]), lins[i])
AskCov == \E i, j \in Ix : /\ lins[i] = lins[j] /\ Len(objs[i].shape) = Len(objs[j].shape) /\ Fits(objs[i], objs[j])
                           /\ Ask([op |-> "covar", o |-> i, p |-> j])
AskCovVar == \E i, j \in Ix : /\ lins[i] = lins[j] /\ Len(objs[i].shape) = 1 /\ Len(objs[j].shape) = 1 /\ CovFits(objs[i], objs[j])
                              /\ Ask([op |-> "covvar", o |-> i, p |-> j])
AskKernel == \E i \in Ix : /\ Len(objs[i].shape) = 1 /\ KFits(objs[i]) /\ Ask([op |-> "kernel", o |-> i])
\* estimators as functions of parameters: ests[i] = [o, cpx, s] is the i-th, object number o
RP(K, cpx) == [k \in 1..K |-> <<Rnd(-2..2), IF cpx THEN Rnd(-2..2) ELSE 0>>]
OpEst == /\ Len(ests) < 1
         /\ \E K \in {Rnd(1..2)}, cpx \in {Rnd(BOOLEAN)} : \E q \in {RP(K, cpx)}, S \in {[m \in 1..Len(objs[1].a) |-> [k \in 1..K |-> Rnd(0..1)]]} :
            /\ Add([op |-> "est", q |-> q, s |-> S, cpx |-> cpx, a |-> objs[1].a, lay |-> objs[1].lay, late |-> Rnd(BOOLEAN)], EstObj(objs[1].lay, S, q, objs[1].a), <<>>)
            /\ ests' = Append(ests, [o |-> Len(objs) + 1, cpx |-> cpx, s |-> S])
OpMove == \E i \in 1..Len(ests) : \E q \in {RP(Len(ests[i].s[1]), ests[i].cpx)}, how \in {"mean", "grad"} :
            LET o == EstObj(objs[1].lay, ests[i].s, q, objs[1].a) IN
            /\ Fits(o, o) /\ objs' = [objs EXCEPT ![ests[i].o] = o]
            /\ hist' = Append(hist, [op |-> "move", o |-> ests[i].o, how |-> how, q |-> q, s |-> ests[i].s, cpx |-> ests[i].cpx, a |-> objs[1].a, lay |-> objs[1].lay])
            /\ UNCHANGED <<lins, ests>>
GNext == \/ /\ Len(hist) < MaxLen /\ (OpEst \/ OpMove) /\ UNCHANGED <<n, d, bs, done>>
         \/ /\ Len(hist) < MaxLen /\ UNCHANGED ests
            /\ (OpSelect \/ OpSubset \/ OpMap \/ OpLin \/ OpCov \/ AskCov \/ AskCovVar \/ AskKernel)
            /\ UNCHANGED <<n, d, bs, done>>
         \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, d, bs, hist, lins, ests>>
GSpec == GInit /\ [][GNext]_gvars
Emit == ~done \/ PrintT("BEH " \o ToJson([d |-> d, bs |-> bs, steps |-> hist]))
=============================================================================
