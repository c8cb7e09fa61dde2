-------------------------- MODULE KeyStreamsTrace --------------------------
(* Recorded draws. Each sample event holds, per process and device, what identifies the randomness     *)
(* behind each draw (pairs of integers). State: per sampler its root and the calls since then, and the *)
(* log of everything delivered.                                                                        *)
EXTENDS KeyStreams, TraceBase
Start(c) == [root |-> <<0, 0>>, calls |-> <<<<>>, <<>>>>, log |-> <<>>]
All(e) == {e.keys[r][d][i] : r \in 1..Len(e.keys), d \in 1..Len(e.keys[1]), i \in 1..Len(e.keys[1][1])}
Same(e) == \A r \in 1..Len(e.keys) : Len(e.keys[r]) = Len(e.keys[1]) /\ \A d \in 1..Len(e.keys[r]) : Len(e.keys[r][d]) = Len(e.keys[1][1])
Step(c, s, e) ==
    CASE e.op \in {"new", "reset"} -> [s EXCEPT !.root = [s.root EXCEPT ![e.o] = e.root], !.calls = [s.calls EXCEPT ![e.o] = <<>>]]
      [] e.op = "sample" -> LET cs == Append(s.calls[e.o], e.n) IN
            [s EXCEPT !.calls = [s.calls EXCEPT ![e.o] = cs],
                      !.log = IF \E i \in 1..Len(s.log) : s.log[i].root = s.root[e.o] /\ s.log[i].calls = cs THEN s.log
                              ELSE Append(s.log, [root |-> s.root[e.o], calls |-> cs, keys |-> e.keys, set |-> All(e)])]
      [] OTHER -> s
Fails(c, s, e) ==
    IF e.op # "sample" THEN {} ELSE IF ~Same(e) THEN {"shape"} ELSE
    LET ro == s.root[e.o] cs == Append(s.calls[e.o], e.n)
        again == {i \in 1..Len(s.log) : s.log[i].root = ro /\ s.log[i].calls = cs}
        \* earlier draws that this one must not repeat: other roots, and the same lineage
        other == {i \in 1..Len(s.log) : s.log[i].root # ro \/ (Len(s.log[i].calls) < Len(cs) /\ SubSeq(cs, 1, Len(s.log[i].calls)) = s.log[i].calls)}
        mine == All(e)
    IN (IF Cardinality(mine) = Len(e.keys) * Len(e.keys[1]) * Len(e.keys[1][1]) THEN {} ELSE {"distinct-within-call"})
       \cup (IF \A i \in other : s.log[i].set \cap mine = {} THEN {} ELSE {"never-repeated"})
       \* random images of random images are no special ones (twelve images, at least fourteen draws)
       \cup (IF \A r \in 1..Len(e.imgs) : e.imgs[r] >= 4 THEN {} ELSE {"independent-draws"})
       \* Ahead: no key handed out can be split off another one that was handed out
       \cup (IF \A r \in 1..Len(e.der) : e.der[r] = <<>> THEN {} ELSE {"split-off-consumed-key"})
       \cup (IF \A i \in again : s.log[i].keys = e.keys THEN {} ELSE {"reproducible"})
TraceInit == TInit /\ R = 0 /\ D = 0 /\ C = 0 /\ key = 0 /\ root = 0 /\ spent = {} /\ reused = FALSE /\ calls = 0 /\ log = <<>>
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
