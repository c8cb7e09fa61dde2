----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded executions. A trace file holds a sequence of cases; each case has a        *)
(* sequence "ev" of events recorded from the real code. TStart gives the specification's state at    *)
(* the beginning of a case, TFails the names of the clauses an event violates in a state, TStep the  *)
(* specification's successor state. Verdicts are total: every event is judged, each failing clause   *)
(* is printed with its position, and the walk continues to the end of the file.                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS TStart(_), TFails(_, _, _), TStep(_, _, _)

Cases == JsonDeserialize(IOEnv.VF_TRACE)

VARIABLES ci, li, ts, nev

Fld(e, f) == f \in DOMAIN e

\* events on which the code delivered nothing to judge
Broken(e) == IF Fld(e, "dead") THEN {"no-answer"} ELSE IF Fld(e, "err") THEN {"raised"} ELSE {}

Judge(c, s, e) == IF Broken(e) # {} THEN Broken(e) ELSE TFails(c, s, e)

TInit == /\ ci = 1 /\ li = 1 /\ nev = 0
         /\ ts = TStart(Cases[1])

Consume == /\ ci <= Len(Cases)
           /\ li <= Len(Cases[ci].ev)
           /\ LET c == Cases[ci]
                  e == c.ev[li]
              IN /\ \A x \in Judge(c, ts, e) : PrintT("FAIL " \o ToString(ci) \o " " \o ToString(li) \o " " \o x)
                 /\ ts' = IF Broken(e) # {} THEN ts ELSE TStep(c, ts, e)
           /\ li' = li + 1 /\ nev' = nev + 1 /\ UNCHANGED ci

NextCase == /\ ci <= Len(Cases)
            /\ li > Len(Cases[ci].ev)
            /\ ci' = ci + 1 /\ li' = 1 /\ UNCHANGED nev
            /\ IF ci < Len(Cases) THEN ts' = TStart(Cases[ci + 1])
               ELSE ts' = ts /\ PrintT("DONE " \o ToString(ci) \o " " \o ToString(nev))

TNext == Consume \/ NextCase

TSpec == TInit /\ [][TNext]_<<ci, li, ts, nev>>
=============================================================================
