----------------------------- MODULE Integrator -----------------------------
(* One-step integrators. A trial evaluates the right hand side at the scheme's stages; the value       *)
(* passed at a stage is the initial value plus a quarter of the time step times a combination of the   *)
(* earlier results, the time passed is the initial time plus half-multiples of the time step. The      *)
(* adaptive scheme compares a full step with two half steps, repeats with a smaller step until the     *)
(* error estimate is within the tolerance, and adapts the time step for the next step.                 *)
EXTENDS Num
Schemes == {"euler", "heun", "adaptive"}
\* times of the stages, in halves of the time step
StageT(s) == CASE s = "euler" -> <<0>> [] s = "heun" -> <<0, 2>> [] OTHER -> <<0, 2, 1, 1, 2>>
NStages(s) == Len(StageT(s))
\* points of the stages: coefficients of the earlier results, in quarters of the time step
StageY(s) == CASE s = "euler" -> << <<>> >>
               [] s = "heun" -> << <<>>, <<4>> >>
               [] OTHER -> << <<>>, <<4>>, <<2, 0>>, <<1, 0, 1>>, <<1, 0, 1, 2>> >>
\* result
Result(s) == CASE s = "euler" -> <<4>> [] s = "heun" -> <<2, 2>> [] OTHER -> <<1, 0, 1, 1, 1>>
\* error: difference between two half steps and a full step
ErrCo == <<-1, -2, 1, 1, 1>>
\* ---- consistency of the tables: each stage time is the sum of its coefficients, order conditions
Consistent == \A s \in Schemes :
    /\ \A i \in 1..NStages(s) : SumSeq(StageY(s)[i]) = 2 * StageT(s)[i] /\ Len(StageY(s)[i]) = i - 1
    /\ SumSeq(Result(s)) = 4 /\ Len(Result(s)) = NStages(s)
    /\ (s # "euler" => SumSeq([i \in 1..NStages(s) |-> Result(s)[i] * StageT(s)[i]]) = 4)
    /\ \A i \in 1..5 : ErrCo[i] = Result("adaptive")[i] - (IF i <= 2 THEN 2 ELSE 0)
\* step size factor, in thousandths, for a cube-root-of-tolerance-over-error of a/b (b = 0: no error at all)
Factor(a, b) == IF b = 0 THEN 2000 ELSE MinI(2000, MaxI(200, (900 * a) \div b))
Accept(a, b) == IF b = 0 THEN TRUE ELSE a >= b
\* dt * f / 1000 without large products
Scale(dt, f) == (dt \div 1000) * f + ((dt % 1000) * f) \div 1000
NextDt(dt, a, b, mx) == MinI(mx, Scale(dt, Factor(a, b)))

\* ---- design model: local error C dt^3 with a constant drawn for every step; q is the cube root of
\* tolerance over C, in the units of dt, so that tolerance over error is (q/dt)^3
CONSTANTS MaxDt, StartDts, Limits, Qs, MaxSteps
VARIABLES sch, mx, dt, start, stage, trial, steps, log, q
vars == <<sch, mx, dt, start, stage, trial, steps, log, q>>
Shrink(d) == MaxI(1, MinI(mx, MinI(2 * d, MaxI(d \div 5, (9 * q) \div 10))))
Init == /\ sch \in Schemes /\ mx \in Limits /\ dt \in StartDts /\ stage = 0 /\ trial = 0 /\ steps = 0 /\ log = <<>> /\ q = 1 /\ start = 0
Begin == /\ stage = 0 /\ steps < MaxSteps /\ q' \in Qs /\ stage' = 1 /\ trial' = 1 /\ start' = steps
         /\ dt' = (IF sch = "adaptive" THEN MinI(dt, mx) ELSE dt) /\ UNCHANGED <<sch, mx, steps, log>>
Eval == /\ stage > 0 /\ stage <= NStages(sch) /\ stage' = stage + 1 /\ UNCHANGED <<sch, mx, dt, trial, start, steps, log, q>>
Done == /\ stage > NStages(sch) /\ sch # "adaptive" /\ stage' = 0 /\ steps' = steps + 1 /\ log' = Append(log, [dt |-> dt, ok |-> TRUE])
        /\ UNCHANGED <<sch, mx, dt, trial, start, q>>
Take == /\ stage > NStages(sch) /\ sch = "adaptive" /\ q >= dt
        /\ stage' = 0 /\ steps' = steps + 1 /\ log' = Append(log, [dt |-> dt, ok |-> q >= dt]) /\ dt' = Shrink(dt) /\ UNCHANGED <<sch, mx, trial, start, q>>
Reject == /\ stage > NStages(sch) /\ sch = "adaptive" /\ q < dt
          /\ stage' = 1 /\ trial' = trial + 1 /\ dt' = Shrink(dt) /\ UNCHANGED <<sch, mx, start, steps, log, q>>
Next == Begin \/ Eval \/ Done \/ Take \/ Reject
Spec == Init /\ [][Next]_vars /\ WF_vars(Eval \/ Done \/ Take \/ Reject)
Tables == Consistent
Bounded == sch = "adaptive" /\ (stage > 0 \/ steps > 0) => dt <= mx
LogOK == \A i \in 1..Len(log) : log[i].ok /\ (sch = "adaptive" => log[i].dt <= mx)
FromStart == stage > 0 => steps = start
Fixed == sch # "adaptive" => \A i \in 1..Len(log) : log[i].dt = dt
Terminates == stage > 0 ~> stage = 0
FactorRange == [][(stage > 1 /\ stage' = 1) => (5 * dt' >= dt - 4 /\ dt' < dt)]_vars
=============================================================================
