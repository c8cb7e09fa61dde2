----------------------------- MODULE KeyStreams -----------------------------
(* Random keys as paths in a splitting tree: a key is a root number followed by the indices chosen at *)
(* each split. A key is consumed (used for a draw) or split, never both and never twice.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxR, MaxD, MaxC, MaxCalls, MaxSteps, Roots
VARIABLES R, D, C, key, root, spent, reused, calls, log
vars == <<R, D, C, key, root, spent, reused, calls, log>>
Sub(k, n, i) == Append(k, <<n, i>>)                     \* i-th of n keys split off k
KeysOf(ro, r, d) == Sub(Sub(<<ro>>, R, r), D, d)        \* root -> process -> device
Install(ro) == [r \in 1..R |-> [d \in 1..D |-> KeysOf(ro, r, d)]]
Init == /\ R \in 1..MaxR /\ D \in 1..MaxD /\ C \in 1..MaxC
        /\ root \in Roots /\ key = Install(root) /\ spent = {} /\ reused = FALSE /\ calls = 0 /\ log = <<>>
\* one update of all chains with carry key k: the consumed keys (one per chain, one for acceptance), and the new carry
StepUsed(k) == {Sub(k, C + 1, i) : i \in 1..C} \cup {Sub(Sub(k, C + 1, C + 1), 2, 1)}
StepCarry(k) == Sub(Sub(k, C + 1, C + 1), 2, 2)
RECURSIVE Carry(_, _), Used(_, _)
Carry(k, n) == IF n = 0 THEN k ELSE Carry(StepCarry(k), n - 1)
Used(k, n) == IF n = 0 THEN {} ELSE StepUsed(k) \cup Used(StepCarry(k), n - 1)
Consume(S, N) == spent' = spent \cup S /\ reused' = (reused \/ S \cap spent # {} \/ Cardinality(S) # N)
Chain == \E n \in 1..MaxSteps :
    /\ Consume(UNION {Used(key[r][d], n) : r \in 1..R, d \in 1..D}, R * D * n * (C + 1))
    /\ key' = [r \in 1..R |-> [d \in 1..D |-> Carry(key[r][d], n)]]
    /\ log' = Append(log, <<"chain", n>>)
Direct == /\ Consume(UNION {{Sub(key[r][1], 3 * D, D + i) : i \in 1..(2 * D)} : r \in 1..R}, R * 2 * D)
          /\ key' = [r \in 1..R |-> [d \in 1..D |-> Sub(key[r][1], 3 * D, d)]]
          /\ log' = Append(log, <<"direct", 1>>)
Reset == \E ro \in Roots : ro \notin {k[1] : k \in spent} /\ ro # root /\ spent # {} /\ root' = ro /\ key' = Install(ro) /\ log' = <<>>
         /\ UNCHANGED <<R, D, C, spent, reused>>
Next == calls < MaxCalls /\ calls' = calls + 1 /\ (((Chain \/ Direct) /\ UNCHANGED <<R, D, C, root>>) \/ Reset)
Spec == Init /\ [][Next]_vars
NoReuse == ~reused
\* the keys in hand are a function of the root and the calls since it was set
RECURSIVE Replay(_, _)
Replay(ks, l) == IF l = <<>> THEN ks ELSE
    Replay(IF Head(l)[1] = "chain" THEN [r \in 1..R |-> [d \in 1..D |-> Carry(ks[r][d], Head(l)[2])]]
           ELSE [r \in 1..R |-> [d \in 1..D |-> Sub(ks[r][1], 3 * D, d)]], Tail(l))
Reproducible == key = Replay(Install(root), log)
\* no key in hand has been consumed
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Ahead == \A r \in 1..R, d \in 1..D : \A k \in spent : ~Prefix(key[r][d], k) /\ ~Prefix(k, key[r][d])
Distinct == \A r1, r2 \in 1..R, d1, d2 \in 1..D : <<r1, d1>> # <<r2, d2>> => key[r1][d1] # key[r2][d2]
=============================================================================
