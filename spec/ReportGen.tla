---------------------------- MODULE ReportGen ----------------------------
EXTENDS Report, Json, IOUtils, TLC
GR == atoi(IOEnv.VF_R)
GD == atoi(IOEnv.VF_D)
GN == atoi(IOEnv.VF_N)
GOff == atoi(IOEnv.VF_OFF)
VARIABLES head, done
gvars == <<head, done>>
Rnd(S) == RandomElement(S)
Term(L) == LET x0 == Rnd(0..L) IN [c |-> <<Rnd({-2, -1, 1, 2}), Rnd({-1, 0, 0, 1})>>, z |-> Force([i \in 1..L |-> IF i = x0 THEN 0 ELSE Rnd({0, 1})]), x |-> x0]
Op(L) == LET k == <<0, 0, 1, 2>>[Rnd(1..4)] IN [terms |-> Force([i \in 1..Rnd(1..2) |-> Term(L)]), args |-> Force([i \in 1..k |-> Rnd(-1..2)])]
Names == <<"zeta", "a", "mid">>
\* the same operator can be listed again with other arguments
Obs(L, nm) == LET lst == Rnd(BOOLEAN) base == Op(L) IN [name |-> nm, list |-> lst, ops |-> Force([i \in 1..(IF lst THEN Rnd(1..3) ELSE 1) |->
    IF i = 1 THEN base ELSE IF Rnd(BOOLEAN) THEN [base EXCEPT !.args = Force([k \in 1..Len(base.args) |-> Rnd(-1..2)])] ELSE Op(L)])]
\* one sample: per process, per device, per entry <<configuration, weight>>
Cfg(nn, v) == Force([i \in 1..nn |-> Rnd(0..(v - 1))])
Data(D, nn, v) == Force([r \in 1..GR |-> LET b == Rnd(1..3) IN Force([d \in 1..D |-> Force([i \in 1..b |-> <<Cfg(nn, v), Rnd(1..3)>>])])])
Measure(L, D, smp, mu) == [kind |-> "measure", L |-> L, d |-> D, smp |-> smp, mu |-> mu, th |-> Force([i \in 1..L |-> Rnd(-1..1)]),
    obs |-> Force([k \in 1..Rnd(1..3) |-> Obs(L, Names[k])]), num |-> <<0, 0, 7, 10>>[Rnd(1..4)], n0 |-> Rnd({5, 8, 12}), data |-> Data(D, L, 2), seed |-> Rnd(1..1000)]
PObs(nm) == [name |-> nm, v |-> Force([i \in 1..4 |-> Rnd(-3..3)]), f |-> 1]
DefObs == <<[name |-> "X", v |-> <<0, 2, -1, -1>>, f |-> 2], [name |-> "Y", v |-> <<0, 0, 1, -1>>, f |-> 6], [name |-> "Z", v |-> <<3, -1, -1, -1>>, f |-> 1]>>
PovmCase(dm, L, D) == LET def == Rnd(BOOLEAN) IN [kind |-> "povm", dim |-> dm, L |-> L, d |-> D, def |-> def,
    obs |-> IF def THEN DefObs ELSE Force([k \in 1..Rnd(1..2) |-> PObs(Names[k])]), given |-> Rnd(BOOLEAN), inf |-> (Rnd(1..3) = 1),
    data |-> Data(D, IF dm = 1 THEN L ELSE L * L, 4)]
Upd(t) == Force([i \in 1..Len(t) |-> Rnd({k \in {-2, 0, 2} : t[i] + (k \div 2) \in -1..1})])
RECURSIVE Script(_, _)
Script(t, k) == IF k = 0 THEN <<>> ELSE LET u == Upd(t) IN
    <<[u |-> u, var |-> <<0, 1, 2, 2, 3, 3, 3, 3>>[Rnd(1..8)]]>> \o Script(Force([i \in 1..Len(t) |-> t[i] + (u[i] \div 2)]), k - 1)
Search(D) == \E t \in {Force([i \in 1..2 |-> Rnd(-1..1)])} :
    head = [kind |-> "search", L |-> 2, d |-> D, th |-> t, script |-> Script(t, 5), lim |-> <<0, 1, 2, 3, 4, 5, 5>>[Rnd(1..7)], tol |-> <<0, 1, 1, 2, 2, 3>>[Rnd(1..6)], shift |-> Rnd(BOOLEAN),
    out |-> (Rnd(1..5) # 1), obs |-> IF Rnd(1..6) = 1 THEN <<>> ELSE Force([k \in 1..Rnd(1..2) |-> Obs(2, Names[k])])]
RealSearch(D) == [kind |-> "real", L |-> 3, d |-> D, eq |-> Rnd({"tdvp", "minsr"}), lim |-> Rnd(1..4), early |-> Rnd(0..3), seed |-> Rnd(1..1000), out |-> Rnd(BOOLEAN)]
GInit == /\ lim = 0 /\ tol = 0 /\ rec = FALSE /\ pc = "x" /\ n = 0 /\ seen = <<>> /\ ver = 0 /\ shift = 0 /\ used = <<>> /\ log = <<>> /\ done = FALSE
         /\ \E idx \in 1..GN :
            \E kd \in {((idx + GOff) % 10)}, D \in {Rnd(1..GD)} :
            IF kd \in {0, 1, 2, 3} THEN head = Measure(Rnd(1..3), D, <<"stub", "exact", "mc", "stub">>[kd + 1], <<1, 2, 2>>[Rnd(1..3)])
            ELSE IF kd \in {4, 5, 6} THEN \E dm \in {IF kd = 4 THEN 2 ELSE 1} : head = PovmCase(dm, IF dm = 1 THEN Rnd(1..4) ELSE Rnd(1..3), D)
            ELSE IF kd \in {7, 8} THEN Search(D)
            ELSE head = RealSearch(D)
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<head, vars>>
GSpec == GInit /\ [][Finish]_<<gvars, vars>>
Emit == ~done \/ PrintT("BEH " \o ToJson(head))
=============================================================================
