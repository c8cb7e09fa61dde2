---------------------------- MODULE LocalEstGen ----------------------------
(* Operators, ansatz parameters, samples and batch sizes for local estimators.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
VARIABLES geom, d, kind, log, re, ebs, nbs, pre, unit, off, hist, done
vars == <<geom, d, kind, log, re, ebs, nbs, pre, unit, off, hist, done>>
Rnd(S) == RandomElement(S)
Geoms == {<<2, <<1>>>>, <<2, <<3>>>>, <<2, <<4>>>>, <<2, <<2, 2>>>>, <<3, <<2>>>>, <<3, <<3>>>>}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
N == Prod(geom[2])
LD == geom[1]
GI(m) == <<Rnd((-m)..m), IF Rnd(1..2) = 1 THEN Rnd((-m)..m) ELSE 0>>
Named == <<"Id", "Sx", "Sy", "Sz", "Sp", "Sm", "c", "c+", "n">>
OpTok(u) == IF LD = 2 THEN [t |-> "op", name |-> Named[Rnd(1..Len(Named))], site |-> Rnd(1..N)]
            ELSE [t |-> "op", name |-> "custom", site |-> Rnd(1..N), diag |-> FALSE, map |-> [v \in 1..LD |-> Rnd(0..(LD - 1))], me |-> [v \in 1..LD |-> GI(1)]]
PreTok(u) == IF Rnd(BOOLEAN) THEN [t |-> "num", v |-> GI(2)] ELSE [t |-> "fun", v |-> GI(1), w |-> GI(1)]
MkStr(u) == [style |-> "right", a |-> (IF Rnd(BOOLEAN) THEN <<PreTok(0)>> ELSE <<>>) \o [i \in 1..Rnd(1..3) |-> OpTok(0)], b |-> <<>>]
\* a user defined operator class: flips sites with a coefficient depending on the arguments
RealGI(u) == <<Rnd(-2..2), 0>>
Flips(u) == LET co == IF re THEN [t |-> "fun", v |-> RealGI(0), w |-> RealGI(0)] ELSE [t |-> "fun", v |-> GI(1), w |-> GI(1)] IN [i \in 1..N |-> [style |-> "right", a |-> <<co, [t |-> "op", name |-> "Sx", site |-> i]>>, b |-> <<>>]]
Strs(u) == IF kind = "class" THEN Flips(0) ELSE [i \in 1..Rnd(1..3) |-> MkStr(0)]
Par(u) == [th |-> [i \in 1..N |-> Rnd(-1..1)], ph |-> [i \in 1..N |-> IF re THEN (IF log THEN 0 ELSE 2 * Rnd(0..1)) ELSE Rnd(0..3)]]
Init == /\ geom \in Geoms /\ d \in 1..GD
        /\ kind \in {"strings", "class"} /\ (IF kind = "class" THEN geom[1] = 2 ELSE TRUE)
        /\ log \in {TRUE, FALSE} /\ re \in BOOLEAN /\ pre \in BOOLEAN
        \* matrix elements are given in units of 10^-unit
        /\ unit \in {Rnd({0, 0, 3, 4, 5})}
        \* logarithm of a constant factor of the amplitudes
        /\ off \in {Rnd(IF log THEN {0, 900, -900} ELSE {0, 500, -500})}
        /\ ebs \in {-1, 1, 2, 3, 4, 5, 7, 20} /\ nbs \in {1, 2, 3, 5, 100}
        /\ hist = <<>> /\ done = FALSE
MaxLen == 4
Add == /\ Len(hist) \in {0, 2} /\ (IF kind = "class" THEN hist = <<>> ELSE TRUE)
       /\ hist' = Append(hist, [op |-> "add", strs |-> Strs(0)])
Eval == /\ hist # <<>> /\ Len(hist) < MaxLen
        /\ \E na \in {Rnd(0..2)}, nc \in {Rnd(1..7)} :
           hist' = Append(hist, [op |-> "eloc", args |-> [i \in 1..na |-> Rnd(-1..1)], how |-> Rnd({"oloc", "oloc", "steps", "batched"}), par |-> Par(0), epar |-> Par(0),
                                 cfgs |-> [i \in 1..(nc * d) |-> [j \in 1..N |-> Rnd(0..(LD - 1))]]])
Next == \/ (Add \/ Eval) /\ UNCHANGED <<geom, d, kind, log, re, ebs, nbs, pre, unit, off, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<geom, d, kind, log, re, ebs, nbs, pre, unit, off, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([L |-> LD, shape |-> geom[2], d |-> d, kind |-> kind, log |-> log, re |-> re, off |-> off, unit |-> unit, ebs |-> ebs, nbs |-> nbs, given |-> pre, steps |-> hist]))
=============================================================================
