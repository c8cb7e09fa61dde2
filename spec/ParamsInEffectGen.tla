------------------------- MODULE ParamsInEffectGen -------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
GR == atoi(IOEnv.VF_R)
GS == atoi(IOEnv.VF_S)
Ids == 1..3
VARIABLES head, hist, done
vars == <<head, hist, done>>
Rnd(S) == RandomElement(S)
Fams == {IOEnv.VF_F}   \* "exact", "mc" or "gen"
Init == done = FALSE /\ hist = <<>> /\ \E f \in Fams : head = [fam |-> f, d |-> GD, seed |-> GS, two |-> (GS % 2 = 0)]
MaxLen == 16
Op(e) == hist' = Append(hist, e)
Form(u) == Rnd({"vec", "tree", "frozen"})
Step == \/ Op([op |-> "set", k |-> Rnd(Ids), form |-> Form(0)])
        \/ Op([op |-> "upd", k |-> Rnd(Ids)])
        \/ Op([op |-> "sample", g |-> 0, form |-> "vec", n |-> Rnd({2, 4})])
        \/ Op([op |-> "sample", g |-> Rnd(Ids), form |-> Form(0), n |-> Rnd({2, 4})])
        \/ Op([op |-> "eval"])
        \/ Op([op |-> "grad"])
        \/ Op([op |-> "measure"])
        \/ Op([op |-> "tdvp", g |-> Rnd(Ids), cv |-> Rnd({TRUE, FALSE}), stage |-> Rnd({-1, 0, 1})])
        \/ Op([op |-> "minsr", g |-> Rnd(Ids), stage |-> Rnd({-1, 0, 1})])
        \/ head.fam = "exact" /\ Op([op |-> "step", g |-> Rnd(Ids), ada |-> Rnd({TRUE, FALSE})])
Next == \/ Len(hist) < MaxLen /\ Step /\ UNCHANGED <<head, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([h |-> head, steps |-> hist]))
=============================================================================
