---------------------------- MODULE EvolutionGen ----------------------------
(* Complete ansaetze of several makes, operators with time dependent coefficients, samplers and the   *)
(* settings of the variational equation. An amplitude is 2^th i^ph, given per configuration.           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
GD == atoi(IOEnv.VF_D)
VARIABLES head, hist, done
vars == <<head, hist, done>>
Rnd(S) == RandomElement(S)
Frc(s) == s \o <<>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Pw(_, _)
Pw(b, n) == IF n = 0 THEN 1 ELSE b * Pw(b, n - 1)
Geoms == {<<2, <<2>>>>, <<2, <<3>>>>, <<2, <<3>>>>, <<2, <<4>>>>, <<2, <<2, 2>>>>, <<3, <<2>>>>}
Kinds == {"holo", "two", "cpx", "plain", "prob", "sym", "povm", "anti"}
Init == head = <<>> /\ hist = <<>> /\ done = FALSE
Setup == /\ head = <<>> /\ UNCHANGED <<hist, done>>
   /\ \E ver \in 1..3 : \E kind \in Kinds : \E geom \in {IF kind = "povm" THEN Rnd({<<4, <<1>>>>, <<4, <<2>>>>, <<4, <<2>>>>}) ELSE IF kind = "sym" THEN Rnd({<<2, <<2>>>>, <<2, <<3>>>>, <<2, <<4>>>>}) ELSE Rnd(Geoms)} :
      \E sam \in {Rnd({"exact", "exact", "mc"})}, eq \in {IF kind \in {"holo", "plain"} THEN Rnd({"tdvp", "tdvp", "minsr"}) ELSE "tdvp"} :
      head' = <<[L |-> geom[1], shape |-> geom[2], d |-> GD, kind |-> kind, sam |-> sam, eq |-> eq,
                 mr |-> IF kind \in {"prob", "povm"} THEN "real" ELSE Rnd({"real", "imag"}),
                 x |-> IF eq = "minsr" THEN <<1, 0>> ELSE IF kind \in {"prob", "povm"} THEN Rnd({<<-1, 0>>, <<-1, 0>>, <<1, 0>>}) ELSE Rnd({<<1, 0>>, <<0, 1>>, <<0, 1>>, <<-1, 0>>}),
                 mu |-> IF sam = "exact" THEN 2 ELSE IF kind \in {"prob", "povm"} THEN 1 ELSE Rnd({2, 2, 1, 0}),
                 ns |-> Rnd({6, 10, 16}), nch |-> Rnd({1, 3, 5}), seed |-> Rnd(0..999), bs |-> Rnd({1, 2, 3, 5, 100}), ebs |-> Rnd({-1, -1, 1, 2, 3, 20}), ver |-> ver]>>
h == head[1]
N == Prod(h.shape)
NC == Pw(h.L, N)
GI(m) == <<Rnd((-m)..m), IF h.kind = "prob" \/ Rnd(1..2) = 1 THEN 0 ELSE Rnd((-m)..m)>>
Named == IF h.kind = "prob" THEN <<"Id", "Sx", "Sz", "Sp", "Sm", "n">> ELSE IF h.kind = "sym" THEN <<"Sx", "Sy", "Sz", "Sp", "Sm", "n">> ELSE <<"Id", "Sx", "Sx", "Sy", "Sz", "Sp", "Sm", "c", "c+", "n">>
OpTok(u) == IF h.L = 2 THEN [t |-> "op", name |-> Named[Rnd(1..Len(Named))], site |-> Rnd(1..N)]
            ELSE [t |-> "op", name |-> "custom", site |-> Rnd(1..N), diag |-> FALSE, map |-> Frc([v \in 1..h.L |-> Rnd(0..(h.L - 1))]), me |-> Frc([v \in 1..h.L |-> GI(1)])]
PreTok(u) == IF Rnd(BOOLEAN) THEN [t |-> "num", v |-> GI(2)] ELSE [t |-> "fun", v |-> GI(1), w |-> GI(1)]
MkStr(u) == [style |-> "right", a |-> (IF Rnd(BOOLEAN) THEN <<PreTok(0)>> ELSE <<>>) \o Frc([i \in 1..Rnd(1..2) |-> OpTok(0)]), b |-> <<>>]
Shift(x, k) == [x EXCEPT !.a = Frc([i \in 1..Len(x.a) |-> IF x.a[i].t = "op" THEN [x.a[i] EXCEPT !.site = ((x.a[i].site - 1 + k) % N) + 1] ELSE x.a[i]])]
\* terms of an evolution operator for probabilities of outcomes
Term(u) == [sites |-> IF N = 1 \/ Rnd(1..3) = 1 THEN <<Rnd(1..N)>> ELSE Rnd({<<1, 2>>, <<2, 1>>}), w |-> Rnd({-2, -1, 1, 2}), pqr |-> <<Rnd(1..4), Rnd(1..4), Rnd(0..4)>>]
Strs(u) == IF h.kind = "povm" THEN Frc([i \in 1..Rnd(1..3) |-> Term(0)]) ELSE IF h.kind = "sym" THEN LET x == MkStr(0) IN Frc([k \in 1..N |-> Shift(x, k)]) ELSE Frc([i \in 1..Rnd(1..3) |-> MkStr(0)])
\* smallest index among the translates (two values per site)
RECURSIVE Canon(_, _, _)
Canon(i, k, best) == IF k = 0 THEN best ELSE LET j == ((2 * i) % NC) + ((2 * i) \div NC) IN Canon(j, k - 1, IF j < best THEN j ELSE best)
Table(f) == IF h.kind = "sym" THEN Frc([i \in 1..NC |-> f[Canon(i - 1, N, i - 1) + 1]]) ELSE f
MaxLen == 5
Add == /\ Len(head) = 1 /\ Len(hist) \in {0, 3} /\ \E s \in {Strs(0)} : hist' = Append(hist, [op |-> "add", strs |-> s]) /\ UNCHANGED <<head, done>>
Move == /\ hist # <<>> /\ Len(hist) < MaxLen
        /\ \E a \in {Frc([i \in 1..NC |-> Rnd(-1..1)])}, b \in {Frc([i \in 1..NC |-> IF h.kind \in {"prob", "povm"} THEN 0 ELSE Rnd(0..3)])} :
           hist' = Append(hist, [op |-> "move", t |-> Rnd(-1..2), how |-> Rnd({"call", "call", "euler"}), th |-> Table(a), ph |-> Table(b)])
        /\ UNCHANGED <<head, done>>
Fin == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, hist>>
Next == Setup \/ Add \/ Move \/ Fin
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([h |-> head[1], steps |-> hist]))
=============================================================================
