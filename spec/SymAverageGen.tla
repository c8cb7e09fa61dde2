--------------------------- MODULE SymAverageGen ---------------------------
EXTENDS LatticeGroup, Json, IOUtils
GD == atoi(IOEnv.VF_D)
GBig == IOEnv.VF_BIG = "1"
VARIABLES head, done
gvars == <<head, done>>
Rnd(S) == RandomElement(S)
AllSy == {"translation", "reflection", "rotation", "spinflip"}
Coef(n) == [i \in 1..(n + 1) |-> Rnd(1..7)]
Exp(sy0, nm, S) == IF nm \in sy0 THEN Rnd(S) ELSE 0
Orders == {f \in [1..4 -> AllSy] : \A i, j \in 1..4 : i # j => f[i] # f[j]}
GInit == /\ dim = 0 /\ L = 0 /\ sy = {} /\ ex = 0 /\ G = {} /\ got = FALSE /\ done = FALSE
         /\ \E idx \in 1..atoi(IOEnv.VF_N) :
            \E mode \in {<<"exp", "log", "sep", "dsample", "initnet">>[1 + (idx % 5)]}, d \in {Rnd({1, 1, 2})} :
            \E ll \in {IF d = 1 THEN Rnd(2..5) ELSE IF GBig \/ mode = "dsample" THEN Rnd(2..3) ELSE 2}, vals \in {IF mode \in {"dsample", "initnet"} THEN 2 ELSE Rnd({2, 2, 4})} :
            \E sy0 \in {Rnd({X \in SUBSET AllSy : (d = 1 => "rotation" \notin X) /\ (vals = 4 => "spinflip" \notin X) /\ X # {}})} :
            \E ex0 \in {[t |-> Exp(sy0, "translation", {0, 3, 6}), r |-> Exp(sy0, "reflection", {0, 6}), o |-> Exp(sy0, "rotation", {0, 3, 6}), s |-> Exp(sy0, "spinflip", {0, 6})]} :
            \E rep \in {IsRep(Group(d, ll, sy0, ex0))} :
            head = [mode |-> mode, dim |-> d, L |-> ll, vals |-> vals, sy |-> sy0, order |-> SelectSeq(Rnd(Orders), LAMBDA x : x \in sy0),
                    ex |-> IF rep THEN ex0 ELSE [t |-> 0, r |-> 0, o |-> 0, s |-> 0], d |-> Rnd(1..GD), batch |-> Rnd({1, 3, 50}),
                    two |-> Rnd({TRUE, FALSE}), wrap |-> Rnd({"orbit", "net"}), seed |-> Rnd(1..10000),
                    pat |-> [i \in 1..Sites(d, ll) |-> Rnd({0, 1})],
                    ca |-> Coef(Sites(d, ll)), cb |-> Coef(Sites(d, ll)), cfgs |-> [k \in 1..(IF Sites(d, ll) > 5 THEN 3 ELSE 8) |-> [i \in 1..Sites(d, ll) |-> Rnd(0..(vals - 1))]]]
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<head, vars>>
GNext == Finish
GSpec == GInit /\ [][GNext]_<<gvars, vars>>
Emit == ~done \/ PrintT("BEH " \o ToJson(head))
=============================================================================
