--------------------------- MODULE PovmDualGen ---------------------------
EXTENDS PovmDual, Json, IOUtils, TLC
GN == atoi(IOEnv.VF_N)
VARIABLES head, done
gvars == <<head, done>>
Rnd(S) == RandomElement(S)
Gen(m) == Force([i \in 1..m |-> Force([j \in 1..m |-> <<Rnd(-2..2), Rnd(-2..2)>>])])
HermOf(a) == LET m == MSize(a) IN Force([i \in 1..m |-> Force([j \in 1..m |-> IF i = j THEN <<a[i][i][1], 0>> ELSE IF i < j THEN a[i][j] ELSE CConj(a[j][i])])])
Small(m) == Force([i \in 1..m |-> Force([j \in 1..m |-> IF Rnd(1..3) = 1 THEN <<Rnd(-1..1), Rnd(-1..1)>> ELSE <<0, 0>>])])
Req(mode, m) == [mode |-> mode, alias |-> Rnd(BOOLEAN), A |-> IF mode = "dis" THEN (IF m = 4 THEN Small(4) ELSE Gen(2)) ELSE HermOf(IF m = 4 THEN Small(4) ELSE Gen(2))]
GInit == /\ rho = One2 /\ p = <<>> /\ k = 0 /\ last = "none" /\ O = <<>> /\ A0 = <<>> /\ done = FALSE
         /\ \E idx \in 1..GN :
            \E st \in {Rnd({0, 1})} :
            head = [theta |-> IF st = 0 /\ idx % 4 = 0 THEN 0 ELSE Rnd(-35..70), phi |-> IF idx % 4 = 1 THEN 0 ELSE Rnd(-35..70),
                    reqs |-> <<Req("uni", 2), Req("dis", 2), Req("dis", 2), Req("imag", 2), Req("obs", 2), Req("obs", 2), Req("uni", 4), Req("dis", 4), Req("imag", 4)>>,
                    order |-> Rnd(BOOLEAN)]
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<head, vars>>
GSpec == GInit /\ [][Finish]_<<gvars, vars>>
Emit == ~done \/ PrintT("BEH " \o ToJson(head))
=============================================================================
