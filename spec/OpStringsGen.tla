---------------------------- MODULE OpStringsGen ----------------------------
(* Histories of building an operator through the string algebra and evaluating it.                   *)
(* pd: the factor is given as a plain dictionary; matrix elements are in units of 10^-unit.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Mode == IOEnv.VF_MODE      \* "spin" or "fermi"
GD == atoi(IOEnv.VF_D)
VARIABLES geom, d, many, unit, hist, done
vars == <<geom, d, many, unit, hist, done>>
Rnd(S) == RandomElement(S)
Geoms == IF Mode = "fermi" THEN {<<2, <<2>>>>, <<2, <<3>>>>, <<2, <<4>>>>, <<2, <<2, 2>>>>, <<2, <<5>>>>, <<2, <<2, 3>>>>, <<2, <<140>>>>}
         ELSE {<<2, <<1>>>>, <<2, <<3>>>>, <<2, <<4>>>>, <<2, <<2, 2>>>>, <<2, <<2, 3>>>>, <<3, <<2>>>>, <<3, <<3>>>>, <<3, <<2, 2>>>>, <<4, <<2>>>>, <<2, <<10, 15>>>>}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
N == Prod(geom[2])
LD == geom[1]
\* on large lattices mostly sites close to the ends
Site(u) == IF N <= 6 THEN Rnd(1..N) ELSE IF Rnd(1..4) > 1 THEN Rnd({1, 2, 127, 128, 129, 130, N - 1, N}) ELSE Rnd(1..N)
Named == IF Mode = "fermi" THEN <<"c", "c+", "c", "c+", "c", "c+", "n", "Sz", "Id", "Sx">> ELSE <<"Id", "Sx", "Sy", "Sz", "Sp", "Sm">>
GI(m) == <<Rnd((-m)..m), IF Rnd(1..3) = 1 THEN Rnd((-m)..m) ELSE 0>>
OpTok(u) == LET nm == IF LD = 2 /\ (Mode = "fermi" \/ Rnd(1..4) > 1) THEN Named[Rnd(1..Len(Named))] ELSE "custom"
            IN IF nm # "custom" THEN [t |-> "op", name |-> nm, pd |-> Rnd(1..4) = 1, site |-> Site(0)]
               ELSE IF Rnd(BOOLEAN) THEN [t |-> "op", name |-> nm, pd |-> Rnd(1..4) = 1, site |-> Site(0), diag |-> TRUE, map |-> [v \in 1..LD |-> v - 1], me |-> [v \in 1..LD |-> GI(2)]]
               ELSE [t |-> "op", name |-> nm, pd |-> Rnd(1..4) = 1, site |-> Site(0), diag |-> FALSE, map |-> [v \in 1..LD |-> Rnd(0..(LD - 1))], me |-> [v \in 1..LD |-> GI(2)]]
PreTok(u) == IF Rnd(BOOLEAN) THEN [t |-> "num", v |-> GI(3)] ELSE [t |-> "fun", v |-> GI(2), w |-> GI(2)]
Toks(n, pOps) == [i \in 1..n |-> IF Rnd(1..10) <= pOps THEN OpTok(0) ELSE PreTok(0)]
OnlyOps(n) == [i \in 1..n |-> OpTok(0)]
MkStr(style) ==
    CASE style = "ctor" -> [style |-> style, a |-> Toks(Rnd(0..3), 5) \o OnlyOps(1) \o Toks(Rnd(0..2), 6), b |-> <<>>]
      [] style = "left" -> [style |-> style, a |-> OnlyOps(1) \o Toks(Rnd(0..4), 6), b |-> <<>>]
      [] style = "right" -> [style |-> style, a |-> Toks(Rnd(0..4), 6) \o OnlyOps(1), b |-> <<>>]
      [] style = "halves" -> [style |-> style, a |-> Toks(Rnd(0..2), 4) \o OnlyOps(1), b |-> Toks(Rnd(0..2), 4) \o OnlyOps(1)]
      [] style = "scal" -> [style |-> style, a |-> <<PreTok(0)>>, b |-> Toks(Rnd(0..1), 5) \o OnlyOps(Rnd(1..2))]
      [] style = "tuple" -> [style |-> style, a |-> OnlyOps(Rnd(1..4)), b |-> <<>>]
      [] style = "long" -> [style |-> "ctor", a |-> OnlyOps(Rnd(5..6)), b |-> <<>>]
Styles == {"ctor", "left", "right", "halves", "scal", "tuple", "long"}
Short(u) == IF Rnd(1..6) = 1 THEN [style |-> "tuple", a |-> OnlyOps(1), b |-> <<>>]
            ELSE [style |-> "right", a |-> <<PreTok(0)>> \o OnlyOps(1), b |-> <<>>]
Cfg(u) == [i \in 1..N |-> Rnd(0..(LD - 1))]
Cfgs(n) == [i \in 1..n |-> Cfg(0)]
Init == geom \in Geoms /\ d \in 1..GD /\ unit \in {Rnd({0, 3, 5})} /\ many \in (IF Mode = "spin" THEN {0, 0, 0, 48, 51, 57} ELSE {0}) /\ hist = <<>> /\ done = FALSE
MaxLen == 7
AddMany == /\ many > 0 /\ hist = <<>>
           /\ hist' = Append(hist, [op |-> "add", strs |-> [i \in 1..many |-> Short(0)]])
AddOne == /\ (IF many > 0 THEN hist # <<>> ELSE TRUE) /\ Len(hist) < MaxLen - 1
          /\ \E st \in {Rnd(Styles)} : hist' = Append(hist, [op |-> "add", strs |-> <<MkStr(st)>>])
AddSome == /\ Len(hist) < MaxLen - 1 /\ many = 0
           /\ hist' = Append(hist, [op |-> "add", strs |-> [i \in 1..Rnd(2..4) |-> MkStr(Rnd(Styles))]])
\* the very same objects once more, possibly after an evaluation
AddAgain == /\ Len(hist) \in 1..(MaxLen - 2) /\ many = 0
            /\ \E k \in {Rnd({i \in 1..Len(hist) : hist[i].op = "add"})} : hist' = Append(hist, [op |-> "add", strs |-> hist[k].strs, again |-> k])
\* a string far larger than the others
AddLarge == /\ unit = 5 /\ many = 0 /\ Len(hist) < MaxLen - 1
            /\ hist' = Append(hist, [op |-> "add", strs |-> <<[style |-> "right", a |-> <<[t |-> "num", v |-> <<1000000 * Rnd({-3, 2, 3}), 0>>], OpTok(0)>>, b |-> <<>>]>>])
\* a string together with one obtained by exchanging two neighbouring factors
AddSwapped == /\ Mode = "fermi" /\ Len(hist) < MaxLen - 1
              /\ \E n \in {Rnd(2..4)} : \E f \in {OnlyOps(n)}, k \in {Rnd(1..(n - 1))} :
                 hist' = Append(hist, [op |-> "add", strs |-> <<[style |-> "tuple", a |-> f, b |-> <<>>],
                                        [style |-> "ctor", a |-> [f EXCEPT ![k] = f[k + 1], ![k + 1] = f[k]], b |-> <<>>]>>])
Eval == /\ hist # <<>> /\ Len(hist) < MaxLen
        /\ \E na \in {Rnd(0..2)}, nc \in {Rnd(1..4)} :
           hist' = Append(hist, [op |-> "eval", args |-> [i \in 1..na |-> Rnd(-2..2)], cfgs |-> Cfgs(nc * d)])
Next == \/ (AddMany \/ AddOne \/ AddSome \/ AddAgain \/ AddLarge \/ AddSwapped \/ Eval) /\ UNCHANGED <<geom, d, many, unit, done>>
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<geom, d, many, unit, hist>>
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([L |-> LD, shape |-> geom[2], d |-> d, unit |-> unit, steps |-> hist]))
=============================================================================
