------------------------------ MODULE Rationals ------------------------------
(* Exact rational arithmetic on pairs <<numerator, denominator>> with a        *)
(* positive denominator, always in lowest terms.  TLC integers are 32 bit and  *)
(* TLC reports every overflow as an error, so a wrong value is never produced  *)
(* silently.                                                                   *)
EXTENDS Integers, Sequences

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

Q(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == GCD(Abs(n), Abs(d))
           IN  IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
QI(n) == <<n, 1>>
QAdd(a, b) == LET g == GCD(a[2], b[2])
              IN  Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == GCD(Abs(a[1]), b[2])
                  h == GCD(Abs(b[1]), a[2])
                  gg == IF g = 0 THEN 1 ELSE g
                  hh == IF h = 0 THEN 1 ELSE h
              IN  Q((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
QScale(k, a) == QMul(QI(k), a)
QDiv(a, b) == QMul(a, Q(b[2], b[1]))

(* a/b < c/d for non-negative a, c and positive b, d, without any product      *)
RECURSIVE FracLess(_, _, _, _)
FracLess(a, b, c, d) ==
  LET q1 == a \div b  q2 == c \div d  r1 == a % b  r2 == c % d
  IN  IF q1 # q2 THEN q1 < q2
      ELSE IF r2 = 0 THEN FALSE
      ELSE IF r1 = 0 THEN TRUE
      ELSE FracLess(d, r2, b, r1)
QLess(x, y) ==
  IF x[1] < 0 /\ y[1] >= 0 THEN TRUE
  ELSE IF x[1] >= 0 /\ y[1] < 0 THEN FALSE
  ELSE IF x[1] < 0 THEN FracLess(-y[1], y[2], -x[1], x[2])
  ELSE FracLess(x[1], x[2], y[1], y[2])
QLeq(x, y) == x = y \/ QLess(x, y)

(* floor(n/d * s) with a remainder loop, so that n*s need not fit in 32 bits;   *)
(* s is a power of ten given by its exponent.                                   *)
RECURSIVE FixLoop(_, _, _, _)
FixLoop(acc, r, d, k) == IF k = 0 THEN acc
                         ELSE FixLoop(acc * 10 + ((r * 10) \div d), (r * 10) % d, d, k - 1)
Fix(n, d, k) == FixLoop(n \div d, n % d, d, k)

(* integer square root, floor *)
RECURSIVE ISqrtLoop(_, _, _)
ISqrtLoop(n, lo, hi) == IF hi - lo <= 1 THEN lo
                        ELSE LET m == (lo + hi) \div 2
                             IN  IF m * m <= n THEN ISqrtLoop(n, m, hi) ELSE ISqrtLoop(n, lo, m)
ISqrt(n) == ISqrtLoop(n, 0, 46341)
=============================================================================
