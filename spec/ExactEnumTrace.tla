--------------------------- MODULE ExactEnumTrace ---------------------------
(* An event "res" holds for every process and device the list of entries                             *)
(* [config, weight positive?, weight * 10^6, Re(log psi) in units of kappa*ln 2 , times 1000, Im times 1000]. *)
EXTENDS ExactEnum, TraceBase

Start(c) == [th |-> <<>>, ph |-> <<>>, sh |-> 0]
ShiftUnit == 700000     \* the common shift, in thousandths of an energy unit

SampleFails(c, s, e) ==
    LET p == IF Fld(e, "par") THEN e.par ELSE s
        NN == Len(p.th)
        cfgs == Configs(c.L, NN)
        zz == Z(p.th, c.L)
        entries == Flat([r \in 1..Len(e.res) |-> Flat(e.res[r])])
        idx == 1..Len(entries)
        AsCfg(x) == [j \in 1..Len(x) |-> x[j]]
        legal == \A i \in idx : entries[i][1] \in cfgs
        live == {i \in idx : entries[i][2] = 1}
    IN IF ~legal THEN {"legal-configuration"} ELSE
       (IF \A s0 \in cfgs : Cardinality({i \in live : entries[i][1] = s0}) = 1 THEN {} ELSE {"every-state-once"})
       \cup (IF \A i \in live : Near(entries[i][3], (W(p.th, c.L, entries[i][1]) * 1000000) \div zz, 2) THEN {} ELSE {"weight"})
       \cup (IF \A i \in idx : i \in live \/ entries[i][3] = 0 THEN {} ELSE {"padding-weight-zero"})
       \cup (IF \A i \in idx : Near(entries[i][4], 1000 * Energy(p.th, entries[i][1]) + p.sh * ShiftUnit, 2)
                            /\ Near(entries[i][5], 1000 * Energy(p.ph, entries[i][1]), 2) THEN {} ELSE {"amplitude"})
       \cup (IF \A r \in 1..Len(e.res) : \A d1, d2 \in 1..Len(e.res[r]) : Len(e.res[r][d1]) = Len(e.res[r][d2]) THEN {} ELSE {"same-size-per-device"})
       \cup (IF \A r \in 1..Len(e.res) : Len(e.res[r]) = c.D THEN {} ELSE {"device-dimension"})
       \cup (IF \A r \in 1..Len(e.res) : e.shp[r] = c.shape THEN {} ELSE {"sample-shape"})

\* a large basis: only counts, and the range of weights (relative to the uniform one, times 1000) for each value of site c.site with exponent 1
BigFails(c, e) ==
    LET NN == Len(e.hist) size == Pow(c.L, NN) IN
    (IF e.live = size /\ e.distinct = size THEN {} ELSE {"every-state-once"})
    \cup (IF \A i \in 1..NN : \A v \in 1..c.L : e.hist[i][v] = size \div c.L THEN {} ELSE {"legal-configuration"})
    \cup (IF \A v \in 1..c.L : LET x == (1000 * c.L * Pow(2, v - 1)) \div (Pow(2, c.L) - 1) IN \A k \in 1..2 : Near(e.w[v][k], x, 2) THEN {} ELSE {"weight"})
Fails(c, s, e) == CASE e.op = "big" -> BigFails(c, e) [] e.op \in {"sample", "sampleP"} -> SampleFails(c, s, e) [] OTHER -> {}
Step(c, s, e) == IF e.op = "set" THEN e.par ELSE s

TraceInit == TInit /\ L = 0 /\ n = 0 /\ R = 0 /\ D = 0 /\ th = 0 /\ out = 0 /\ res = 0
TraceNext == TNext /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, ci, li, ts, nev>>
=============================================================================
