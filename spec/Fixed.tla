------------------------------- MODULE Fixed -------------------------------
(* Fixed-point arithmetic on TLC's 32-bit integers.  Recorded quantities are *)
(* scaled integers, saturated at +-FixMax; NaN is the distinguished value    *)
(* NaNV (below every saturated value).                                       *)
EXTENDS Integers, Sequences

FixMax == 200000000
NaNV == -210000000
IsNaN(x) == x = NaNV
IsNum(x) == x # NaNV
Finite(x) == x # NaNV /\ x < FixMax /\ x > -FixMax

AbsF(x) == IF x < 0 THEN -x ELSE x
MinF(a, b) == IF a < b THEN a ELSE b
MaxF(a, b) == IF a > b THEN a ELSE b
ClipF(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Near(a, b, tol) == AbsF(a - b) <= tol
\* equal up to tol, a NaN being equal only to a NaN
Same(a, b, tol) == IF IsNaN(a) \/ IsNaN(b) THEN a = b ELSE Near(a, b, tol)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* floor(a*b/c) for 0 <= a, 0 <= b <= c < 2^21: base-1024 long multiplication
RECURSIVE MulDivR(_, _, _)
MulDiv(a, b, c) == (a \div c) * b + MulDivR(a % c, b, c)
MulDivR(a, b, c) ==
  LET ah == a \div 1024
      al == a % 1024
      h  == (ah * b) \div c          \* ah*b < 2^11 * 2^21 does not hold in general: callers keep c < 2^20
      hr == (ah * b) % c
      m  == hr * 1024 + al * b
  IN h * 1024 + m \div c
SMulDiv(a, b, c) == IF a < 0 THEN -MulDiv(-a, b, c) ELSE MulDiv(a, b, c)
=============================================================================
