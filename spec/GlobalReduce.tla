---------------------------- MODULE GlobalReduce ----------------------------
(* Collective computation of weighted statistics. Every process owns data on its devices; a call is  *)
(* a program of collective operations that all processes run through asynchronously. The results are *)
(* compared with the definitions over the concatenated data.                                         *)
EXTENDS Num, TLC

\* ---------------------------------------------------------------- definitions (Gaussian integers, integer weights)
\* es: sequence of records [x |-> <<re, im>>, w |-> weight]
WTot(es) == SumSeq([i \in 1..Len(es) |-> es[i].w])
DSum(es) == CSumSeq([i \in 1..Len(es) |-> es[i].x])
WSum(es) == CSumSeq([i \in 1..Len(es) |-> CScale(es[i].w, es[i].x)])
CAbs2(x) == x[1] * x[1] + x[2] * x[2]
WSum2(es) == SumSeq([i \in 1..Len(es) |-> es[i].w * CAbs2(es[i].x)])
\* variance times W^2
VarW2(es) == WTot(es) * WSum2(es) - CAbs2(WSum(es))
\* covariance conj(x) y, times W^2; xs, ys with the same weights
CovW2(xs, ys) == CSub(CScale(WTot(xs), CSumSeq([i \in 1..Len(xs) |-> CScale(xs[i].w, CMul(CConj(xs[i].x), ys[i].x))])),
                      CMul(CConj(WSum(xs)), WSum(ys)))

\* ---------------------------------------------------------------- the protocol
CONSTANTS Vals, Wts, MaxR, MaxD

Calls == {"sum", "mean", "var", "gather", "bcast"}
Prog(call) == CASE call \in {"sum", "mean"} -> <<"allreduce">>
                [] call = "var" -> <<"allreduce", "allreduce">>
                [] call = "gather" -> <<"allgather">>
                [] call = "bcast" -> <<"bcast-size", "bcast-data">>

VARIABLES R, dat, call, pos, inside, acc, res
vars == <<R, dat, call, pos, inside, acc, res>>
Procs == 1..R

\* dat[r] = sequence over devices of entries
Concat(d) == Flat([r \in 1..Len(d) |-> d[r]])
Init == /\ R \in 1..MaxR
        /\ dat \in [1..R -> UNION {[1..d -> [x : {<<v, 1>> : v \in Vals}, w : Wts]] : d \in 1..MaxD}]
        /\ call \in Calls
        /\ pos = [r \in 1..R |-> 1] /\ inside = [r \in 1..R |-> FALSE]
        /\ acc = [r \in 1..R |-> <<0, 0>>] /\ res = [r \in 1..R |-> <<>>]

Active(r) == pos[r] <= Len(Prog(call))
Enter(r) == /\ Active(r) /\ ~inside[r]
            /\ inside' = [inside EXCEPT ![r] = TRUE]
            /\ UNCHANGED <<R, dat, call, pos, acc, res>>

\* what process r contributes to the collective it is in
Contribution(r) ==
    LET es == dat[r] IN
    CASE call = "sum" -> DSum(es)
      [] call = "mean" -> WSum(es)
      [] call = "var" /\ pos[r] = 1 -> WSum(es)
      [] call = "var" /\ pos[r] = 2 ->
            LET W == WTot(Concat(dat)) IN
            <<SumSeq([i \in 1..Len(es) |-> es[i].w * CAbs2(CSub(CScale(W, es[i].x), acc[r]))]), 0>>
      [] OTHER -> <<0, 0>>

Complete ==
    /\ \A r \in Procs : inside[r]
    /\ \A r, s \in Procs : pos[r] = pos[s]
    /\ LET k == pos[1]
           total == CSumSeq([r \in 1..R |-> Contribution(r)])
           out == CASE call = "gather" -> Concat(dat)
                    [] call = "bcast" -> dat[R]
                    [] OTHER -> total
       IN /\ acc' = [r \in 1..R |-> total]
          /\ res' = IF k = Len(Prog(call)) THEN [r \in 1..R |-> out] ELSE res
    /\ pos' = [r \in 1..R |-> pos[r] + 1]
    /\ inside' = [r \in 1..R |-> FALSE]
    /\ UNCHANGED <<R, dat, call>>

Finished == \A r \in Procs : ~Active(r)
\* the next call on the same data
Again == /\ Finished
         /\ call' \in Calls \ {call}
         /\ pos' = [r \in 1..R |-> 1] /\ inside' = [r \in 1..R |-> FALSE]
         /\ acc' = [r \in 1..R |-> <<0, 0>>] /\ res' = [r \in 1..R |-> <<>>]
         /\ UNCHANGED <<R, dat>>

Next == (\E r \in 1..MaxR : r <= R /\ Enter(r)) \/ Complete \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ResultInv == Finished => LET es == Concat(dat) W == WTot(es) IN
    \A r \in Procs : res[r] = (CASE call = "sum" -> DSum(es)
                                 [] call = "mean" -> WSum(es)
                                 [] call = "var" -> <<W * VarW2(es), 0>>
                                 [] call = "gather" -> es
                                 [] call = "bcast" -> dat[R])
\* processes inside a collective are inside the same one
MatchInv == \A r, s \in Procs : (inside[r] /\ inside[s]) => pos[r] = pos[s]
Live == []<>Finished
=============================================================================
