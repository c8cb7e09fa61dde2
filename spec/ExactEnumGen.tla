---------------------------- MODULE ExactEnumGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
Big == IOEnv.VF_BIG = "1"
Geoms == {<<2, <<1>>>>, <<2, <<2>>>>, <<2, <<3>>>>, <<2, <<4>>>>, <<2, <<2, 2>>>>, <<3, <<1>>>>, <<3, <<2>>>>, <<3, <<3>>>>, <<3, <<2, 1>>>>,
          <<4, <<2>>>>, <<5, <<1>>>>, <<4, <<1, 2>>>>} \cup (IF Big THEN {<<2, <<5>>>>, <<2, <<2, 3>>>>, <<4, <<3>>>>, <<3, <<2, 2>>>>, <<6, <<2>>>>} ELSE {})
VARIABLES geom, d, kap, log, hist, done
vars == <<geom, d, kap, log, hist, done>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
N == Prod(geom[2])
Ths == [1..N -> {-1, 0, 1, 2}]
RndTh == [i \in 1..N |-> RandomElement({-1, 0, 1, 2})]
RndPh == [i \in 1..N |-> RandomElement(-3..3)]
Par == [th |-> RndTh, ph |-> RndPh, sh |-> RandomElement(IF log THEN {0, 1, -1, 2, -2} ELSE {0, 1, -1})]
Init == geom \in Geoms /\ d \in 1..GD /\ kap \in {1, 2} /\ log \in BOOLEAN /\ hist = <<>> /\ done = FALSE
MaxLen == 4
SetP == /\ Len(hist) < MaxLen - 1 /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "set")
        /\ hist' = Append(hist, [op |-> "set", par |-> Par]) 
Smp == /\ Len(hist) < MaxLen /\ hist # <<>>
       /\ hist' = Append(hist, [op |-> "sample"])
SmpP == /\ Len(hist) < MaxLen /\ hist # <<>>
        /\ hist' = Append(hist, [op |-> "sampleP", par |-> Par])
Next == \/ (SetP \/ Smp \/ SmpP) /\ UNCHANGED <<geom, d, kap, log, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<geom, d, kap, log, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([L |-> geom[1], shape |-> geom[2], d |-> d, kap |-> kap, log |-> log, steps |-> hist]))
=============================================================================
