--------------------------- MODULE IntegratorGen ---------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES head, hist, trials, done
vars == <<head, hist, trials, done>>
Rnd(S) == RandomElement(S)
MaxLen == 4
Init == done = FALSE /\ hist = <<>> /\ trials = <<>> /\ head = <<>>
Setup == /\ Len(head) = 0 /\ UNCHANGED <<hist, trials, done>>
         /\ \E s \in {Rnd({"euler", "heun", "adaptive", "adaptive", "adaptiveN"})}, n \in {Rnd(1..3)} :
            head' = <<[sch |-> s, off |-> IF s = "adaptiveN" THEN 0 ELSE Rnd({0, 67108865}), n |-> n, cpx |-> Rnd({TRUE, FALSE}), lib |-> Rnd({"np", "jnp"}), two |-> Rnd({TRUE, FALSE}),
                     dt |-> Rnd({1, 2, 5, 8, 16, 40, 100}), mx |-> Rnd({3, 8, 16, 32, 64}), tol |-> Rnd({1, 4, 25, 100, 600}), seed |-> Rnd(1..100000)]>>
\* trials of a step: repeated ones first (a < b), then an accepted one
TrialA == /\ Len(head) = 1 /\ Len(hist) < MaxLen /\ Len(trials) < 4 /\ \E b \in {Rnd(2..6)} : \E a \in {Rnd(1..(b - 1))} : trials' = Append(trials, <<a, b>>)
          /\ UNCHANGED <<head, hist, done>>
TrialB == /\ Len(head) = 1 /\ Len(hist) < MaxLen
          /\ \E b \in {Rnd(1..4)} : \E x \in {Rnd({<<b, b>>, <<b + Rnd(1..5), b>>, <<b + 1, b>>, <<1, 0>>})} :
             hist' = Append(hist, [trials |-> Append(trials, x), t |-> Rnd({0, 0, 1, 6, 40}), dtarg |-> IF head[1].sch = "heun" THEN Rnd({0, 0, 3, 10}) ELSE 0,
                                   newdt |-> IF head[1].sch = "heun" THEN Rnd({0, 0, 4, 7}) ELSE 0, args |-> Rnd(0..3), y |-> [i \in 1..(head[1].n * (IF head[1].cpx THEN 2 ELSE 1)) |-> Rnd(-6..6)]])
          /\ trials' = <<>> /\ UNCHANGED <<head, done>>
Fin == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<head, hist, trials>>
Next == Setup \/ TrialA \/ TrialB \/ Fin
Spec == Init /\ [][Next]_vars
Emit == ~done \/ PrintT("BEH " \o ToJson([h |-> head[1], steps |-> hist]))
=============================================================================
