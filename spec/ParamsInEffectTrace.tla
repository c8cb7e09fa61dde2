------------------------ MODULE ParamsInEffectTrace ------------------------
(* State: the number of the current parameter set, and reference results, one per computation and     *)
(* parameter set, recorded from fresh objects that never saw any other parameters.                     *)
EXTENDS ParamsInEffect, Integers, TraceBase
AbsI(x) == IF x < 0 THEN -x ELSE x
Start(c) == [k |-> 0, ref |-> <<>>]
Changes(e) == e.op \in {"set", "upd"}
NewK(s, e) == IF Changes(e) THEN e.k ELSE s.k
Step(c, s, e) == IF e.op = "ref" THEN [s EXCEPT !.ref = Append(s.ref, e)] ELSE [s EXCEPT !.k = NewK(s, e)]
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsI(a[i] - b[i]) <= 3
Ref(s, what, k) == LET i == CHOOSE i \in 1..Len(s.ref) : s.ref[i].what = what /\ s.ref[i].k = k IN s.ref[i].out
Eff(s, e) == IF Fld(e, "g") THEN IF e.g = 0 THEN s.k ELSE e.g ELSE s.k
Fails(c, s, e) ==
    CASE e.op = "ref" -> IF \A i \in 1..Len(s.ref) : (s.ref[i].what = e.what /\ s.ref[i].k # e.k) => ~Same(s.ref[i].out, e.out) THEN {} ELSE {"reference-not-distinguishing"}
      [] OTHER -> (IF e.pid = NewK(s, e) THEN {} ELSE {"parameters-changed"})
                  \cup (IF Changes(e) THEN {} ELSE IF Same(e.out, Ref(s, e.what, Eff(s, e))) THEN {} ELSE {"parameters-used"})
TraceInit == TInit /\ cur = 0 /\ stack = 0 /\ want = 0 /\ phase = 0 /\ used = 0 /\ before = 0 /\ cache = 0 /\ n = 0
TraceSpec == TraceInit /\ [][TNext /\ UNCHANGED vars]_<<vars, ci, li, ts, nev>>
=============================================================================
