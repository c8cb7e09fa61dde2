---------------------------- MODULE AutoRegGen ----------------------------
EXTENDS AutoReg, Json, IOUtils
GR == atoi(IOEnv.VF_R)
GD == atoi(IOEnv.VF_D)
GBig == IOEnv.VF_BIG = "1"
GN == atoi(IOEnv.VF_N)
GOff == atoi(IOEnv.VF_OFF)
VARIABLES head, done
gvars == <<head, done>>
Rnd(S) == RandomElement(S)
Cells == <<"RNN", "LSTM", "GRU", "custom">>
GInit == /\ dim = 1 /\ L = 1 /\ tab = <<>> /\ pre = <<>> /\ mass = 1 /\ done = FALSE
         /\ \E idx \in 1..GN :
            \E j \in {idx + GOff} :
            \E d \in {IF j % 3 = 0 THEN 2 ELSE 1}, cell \in {Cells[1 + ((j \div 3) % 4)]}, wrap \in {IF j % 5 = 4 THEN "plain" ELSE Rnd({"net", "sym", "two"})} :
            \E v \in {IF wrap = "sym" THEN 2 ELSE Rnd(2..4)} :
            \E ll \in {IF d = 2 THEN (IF v = 2 /\ (GBig \/ Rnd(1..3) = 1) THEN 3 ELSE 2) ELSE Rnd(1..(IF v = 2 THEN (IF GBig THEN 7 ELSE 5) ELSE 3))} :
            head = [dim |-> d, L |-> ll, v |-> v, cell |-> cell, depth |-> Rnd(IF GBig THEN {1, 2, 3} ELSE {1, 2}), hid |-> Rnd(2..5), wrap |-> wrap,
                    kap |-> IF wrap = "sym" THEN 1 ELSE Rnd({1, 2, 2, 3}), rout |-> IF wrap = "two" THEN TRUE ELSE Rnd({TRUE, FALSE}),
                    sym |-> <<Rnd(BOOLEAN), Rnd(BOOLEAN), Rnd(BOOLEAN)>>, scale |-> Rnd({1, 2, 4}), noise |-> Rnd(0..3),
                    seed |-> Rnd(1..10000), n |-> Rnd({2000, 4001}), mult |-> Rnd({1, 1, 7}), dv |-> Rnd(1..GD), par |-> Rnd(BOOLEAN), batch |-> Rnd({5, 1000})]
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<head, vars>>
GSpec == GInit /\ [][Finish]_<<gvars, vars>>
Emit == ~done \/ PrintT("BEH " \o ToJson(head))
=============================================================================
