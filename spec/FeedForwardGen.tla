-------------------------- MODULE FeedForwardGen --------------------------
EXTENDS FeedForward, Json, IOUtils, TLC
GN == atoi(IOEnv.VF_N)
GD == atoi(IOEnv.VF_D)
GOff == atoi(IOEnv.VF_OFF)
VARIABLES head, done
gvars == <<head, done>>
Rnd(S) == RandomElement(S)
Z(cpx, m) == <<Rnd((-m)..m), IF cpx THEN Rnd((-m)..m) ELSE 0>>
ZMat(cpx, m, r, c) == Force([i \in 1..r |-> Force([j \in 1..c |-> Z(cpx, m)])])
ZVec(cpx, m, c, on) == Force([j \in 1..c |-> IF on THEN Z(cpx, m) ELSE <<0, 0>>])
ActLists(cpx, k) == IF cpx THEN {<<"square">>, <<"id", "square">>, <<"square", "id">>}
                    ELSE IF k = 3 THEN {<<"relu">>, <<"relu", "id", "square">>, <<"square", "id">>, <<"id", "relu">>, <<"square", "relu">>, <<"id", "square", "relu">>}
                    ELSE {<<"square">>, <<"relu">>, <<"relu", "square">>, <<"id", "relu">>, <<"square", "id">>, <<"relu", "id", "square">>}
ActOf(as, k) == IF k <= Len(as) THEN as[k] ELSE as[Len(as)]
Cfgs(nn, k) == Force([i \in 1..k |-> Force([j \in 1..nn |-> Rnd(0..1)])])
Base(kind, dim, sh) == [kind |-> kind, dim |-> dim, sh |-> sh, cfgs |-> Cfgs(sh[1] * sh[2], 6), d |-> Rnd(1..GD), batch |-> Rnd({1, 2, 50})]
ConvCase(kind, dim, sh, k, cpx) ==
    \E F \in {<<Rnd(1..(IF dim = 1 THEN 4 ELSE 2)), IF dim = 1 THEN 1 ELSE Rnd(1..3)>>}, s \in {<<<<1, 1, 2>>[Rnd(1..3)], IF dim = 1 THEN 1 ELSE <<1, 1, 2>>[Rnd(1..3)]>>} :
    \E ch \in {Force([i \in 1..k |-> Rnd(1..2)])}, as \in {Rnd({x \in ActLists(cpx, k) : Len(x) <= k})}, bias \in {Rnd(BOOLEAN)}, fb \in {Rnd(BOOLEAN)}, per \in {Rnd(BOOLEAN)} :
    \E ls \in {Force([i \in 1..k |-> [F |-> F, s |-> s, bc |-> IF cpx /\ per THEN "wrapsame" ELSE IF cpx THEN "same" ELSE IF per THEN "per" ELSE "full", f |-> ActOf(as, i),
                   w |-> Force([m \in 1..(F[1] * F[2]) |-> ZMat(cpx, 1, IF i = 1 THEN 1 ELSE ch[i - 1], ch[i])]), b |-> ZVec(cpx, 1, ch[i], IF i = 1 THEN fb ELSE bias)]])} :
    head = Base(kind, dim, sh) @@ [F |-> F, s |-> s, ch |-> ch, acts |-> as, bias |-> bias, fb |-> fb, per |-> per, ls |-> ls, m |-> Entries(sh, ls), m2 |-> Entries(sh, Periodic(ls))]
DenseCase(dim, sh, k) ==
    \E ch \in {Force([i \in 1..k |-> IF i = k THEN 1 ELSE Rnd(1..3)])}, as \in {Rnd({x \in ActLists(FALSE, k) : Len(x) <= k})}, bias \in {Rnd(BOOLEAN)} :
    \E ls \in {Force([i \in 1..k |-> [f |-> ActOf(as, i), w |-> ZMat(FALSE, 2, IF i = 1 THEN sh[1] * sh[2] ELSE ch[i - 1], ch[i]), b |-> ZVec(FALSE, 2, ch[i], bias)]])} :
    head = Base("ffn", dim, sh) @@ [ch |-> ch, acts |-> as, bias |-> bias, ls |-> ls]
RbmCase(kind, dim, sh) ==
    \E h \in {Rnd(1..3)}, bias \in {Rnd(BOOLEAN)}, big \in {IF kind = "nospin" THEN 1 ELSE <<1, 1, 150>>[Rnd(1..3)]} :
    head = Base(kind, dim, sh) @@ [h |-> h, bias |-> bias, big |-> big, w |-> ZMat(kind # "rbm", 2, sh[1] * sh[2], h), b |-> ZVec(kind # "rbm", 2, h, bias)]
GInit == /\ a = <<>> /\ b = <<>> /\ l = 0 /\ net = <<>> /\ done = FALSE
         /\ \E idx \in 1..GN :
            \E kd \in {((idx + GOff) % 10)}, dim \in {Rnd({1, 2})} :
            \E sh \in {IF dim = 1 THEN <<Rnd(1..5), 1>> ELSE <<Rnd(1..3), Rnd(1..3)>>} :
            IF kd \in {0, 1, 2} THEN ConvCase("cnn", dim, sh, Rnd(1..3), FALSE)
            ELSE IF kd = 3 THEN ConvCase("cpxcnn", dim, sh, Rnd(1..2), TRUE)
            ELSE IF kd \in {4, 5} THEN DenseCase(dim, sh, Rnd(1..3))
            ELSE IF kd \in {6, 7, 8} THEN RbmCase(<<"rbm", "cpxrbm", "nospin">>[kd - 5], dim, sh)
            ELSE head = [kind |-> "sym", dim |-> 1, sh |-> <<Rnd(2..4), 1>>, F |-> Rnd(1..3), ch |-> Rnd(1..2), bias |-> Rnd(BOOLEAN), seed |-> Rnd(1..1000), d |-> 1, batch |-> 50,
                         sy |-> <<Rnd(BOOLEAN), Rnd(BOOLEAN), Rnd(BOOLEAN)>>]
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<head, vars>>
GSpec == GInit /\ [][Finish]_<<gvars, vars>>
Emit == ~done \/ PrintT("BEH " \o ToJson(head))
=============================================================================
