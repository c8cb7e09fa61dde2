-------------------------------- MODULE Num --------------------------------
(* Exact integer helpers. Real numbers recorded from the code are quantised integers; they only ever *)
(* enter comparisons (Near), so that a wrong value can never overflow TLC's 32-bit arithmetic.       *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
Lcm(a, b) == (a * b) \div GcdR(a, b)

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

\* rounded quotient a/b for b > 0
RDiv(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))

\* Gaussian integers <<re, im>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>
CScale(k, x) == <<k * x[1], k * x[2]>>
CNear(x, y, tol) == Near(x[1], y[1], tol) /\ Near(x[2], y[2], tol)
RECURSIVE CSumTo(_, _)
CSumTo(f, n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(f[n], CSumTo(f, n - 1))
CSumSeq(s) == CSumTo(s, Len(s))

\* the same sequence, evaluated once (TLC evaluates function expressions lazily)
Force(s) == s \o <<>>

RECURSIVE FlatTo(_, _)
FlatTo(ss, n) == IF n = 0 THEN <<>> ELSE FlatTo(ss, n - 1) \o ss[n]
Flat(ss) == FlatTo(ss, Len(ss))
=============================================================================
