--------------------------- MODULE ParamsInEffect ---------------------------
(* Which parameters a computation uses. The state has one current value; computations that are given  *)
(* parameters install them, run nested computations (which name none) and restore; compiled functions *)
(* are kept between calls and receive the parameters at call time.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ids, MaxOps
\* cur: current parameters. stack: saved ones of running computations. want: what the innermost one should use. cache: compiled functions
VARIABLES cur, stack, want, phase, used, before, cache, n
vars == <<cur, stack, want, phase, used, before, cache, n>>
None == 0
Init == cur \in Ids /\ stack = <<>> /\ want = None /\ phase = "idle" /\ used = {} /\ before = cur /\ cache = {} /\ n = 0
Idle == phase = "idle" /\ n < MaxOps
Set == Idle /\ \E k \in Ids : cur' = k /\ before' = k /\ n' = n + 1 /\ used' = {} /\ UNCHANGED <<stack, want, phase, cache>>
\* a computation called from outside, with or without parameters
Begin == Idle /\ n' = n + 1 /\ used' = {} /\ before' = cur
         /\ \E g \in Ids \cup {None} : /\ want' = IF g = None THEN cur ELSE g
                                       /\ stack' = IF g = None THEN <<>> ELSE <<cur>>
                                       /\ cur' = IF g = None THEN cur ELSE g
         /\ phase' = "run" /\ UNCHANGED cache
\* the work of a computation: evaluation through a compiled function for some batch size, created on first use
Work == phase = "run" /\ \E b \in 1..2 : cache' = cache \cup {b} /\ used' = used \cup {cur}
        /\ phase' \in {"run2", "done"} /\ UNCHANGED <<cur, stack, want, before, n>>
Nested == phase = "run2" /\ used' = used \cup {cur} /\ phase' = "done" /\ UNCHANGED <<cur, stack, want, before, cache, n>>
End == phase = "done" /\ cur' = (IF stack = <<>> THEN cur ELSE stack[1]) /\ stack' = <<>> /\ phase' = "check"
       /\ UNCHANGED <<want, used, before, cache, n>>
Return == phase = "check" /\ phase' = "idle" /\ want' = None /\ UNCHANGED <<cur, stack, used, before, cache, n>>
Next == Set \/ Begin \/ Work \/ Nested \/ End \/ Return
Spec == Init /\ [][Next]_vars
UsesNamed == phase = "check" => used = {want}
Untouched == phase \in {"check", "idle"} => cur = before
=============================================================================
