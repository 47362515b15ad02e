------------------------------ MODULE FFFloat -------------------------------
(* IEEE single precision. A float is its bit pattern read as a signed 32-bit *)
(* integer; all arithmetic below is exact integer arithmetic on that pattern.*)
EXTENDS FFBase

FNeg(x) == x < 0
FMag(x) == IF x < 0 THEN (x + 2147483647) + 1 ELSE x
FExp(x) == FMag(x) \div 8388608
FFrac(x) == FMag(x) % 8388608
FIsZero(x) == FMag(x) = 0
FFinite(x) == FExp(x) < 255
FMake(neg, mag) == IF neg THEN (mag - 2147483647) - 1 ELSE mag

\* mantissa and exponent: |x| = FMant(x) * 2^FPow(x)
FMant(x) == IF FExp(x) = 0 THEN FFrac(x) ELSE FFrac(x) + 8388608
FPow(x) == (IF FExp(x) = 0 THEN 1 ELSE FExp(x)) - 150

BIG == 1073741824

\* x * 2^q rounded to an integer; +-BIG when that is not below 2^30 or x is not finite.
FixQ(x, q) ==
  LET m == FMant(x)
      sh == FPow(x) + q
      v == IF m = 0 THEN 0
           ELSE IF ~FFinite(x) THEN BIG
           ELSE IF sh > 6 THEN BIG
           ELSE IF sh >= 0 THEN m * (2 ^ sh)
           ELSE IF sh < -25 THEN 0
           ELSE (m + 2 ^ (-sh - 1)) \div (2 ^ (-sh))
  IN IF FNeg(x) THEN -v ELSE v

\* x * 2^k; NaN when x or the result is not zero or a normal number.
FShift(x, k) ==
  IF k = 0 \/ FIsZero(x) THEN x
  ELSE IF FExp(x) \in 1..254 /\ FExp(x) + k \in 1..254 THEN x + k * 8388608
  ELSE 2143289344

\* Is x an integer below 2^24 in magnitude?
IsIntF(x) ==
  /\ FFinite(x)
  /\ \/ FMant(x) = 0
     \/ /\ FPow(x) <= 0 /\ FPow(x) >= -23
        /\ FMant(x) % (2 ^ (-FPow(x))) = 0
IntOf(x) == LET v == FMant(x) \div (2 ^ (-FPow(x))) IN IF FIsZero(x) THEN 0 ELSE IF FNeg(x) THEN -v ELSE v

RECURSIVE Log2_(_)
Log2_(n) == IF n < 2 THEN 0 ELSE 1 + Log2_(n \div 2)

\* The float with integer value n, |n| < 2^24.
FOfInt(n) ==
  IF n = 0 THEN 0
  ELSE LET a == Abs_(n)
           l == Log2_(a)
       IN FMake(n < 0, (127 + l) * 8388608 + (a * (2 ^ (23 - l)) - 8388608))

FSign(x, y) == FNeg(x) # FNeg(y)

\* Correctly rounded product; defined (FMulOk) when both are zero or normal
\* numbers and the product stays in the normal range.
FMulOk(x, y) ==
  \/ FIsZero(x) /\ FFinite(y)
  \/ FIsZero(y) /\ FFinite(x)
  \/ /\ FExp(x) \in 1..254 /\ FExp(y) \in 1..254
     /\ FExp(x) + FExp(y) - 127 \in 2..252
FMul(x, y) ==
  IF FIsZero(x) \/ FIsZero(y) THEN FMake(FSign(x, y), 0)
  ELSE
  LET a == FMant(x)  b == FMant(y)
      a1 == a \div 4096  a0 == a % 4096
      b1 == b \div 4096  b0 == b % 4096
      mid == a1 * b0 + a0 * b1
      low == a0 * b0 + (mid % 4096) * 4096
      hi == a1 * b1 + (mid \div 4096) + (low \div 16777216)
      lo == low % 16777216
      big == hi >= 8388608
      m == IF big THEN hi ELSE hi * 2 + (lo \div 8388608)
      r == IF big THEN lo ELSE (lo % 8388608) * 2       \* of 2^24
      up == r > 8388608 \/ (r = 8388608 /\ m % 2 = 1)
      m2 == IF up THEN m + 1 ELSE m
      e == FExp(x) + FExp(y) - 127 + (IF big THEN 1 ELSE 0)
  IN \* a carry out of the mantissa runs into the exponent, as it should
     FMake(FSign(x, y), (e - 1) * 8388608 + m2)

\* Correctly rounded p / q for naturals p, q > 0 below 2^30.
RECURSIVE DivBits_(_, _, _, _)
DivBits_(r, q, k, acc) ==
  IF k = 0 THEN <<acc, r>>
  ELSE LET r2 == 2 * r IN
       IF r2 >= q THEN DivBits_(r2 - q, q, k - 1, 2 * acc + 1)
       ELSE DivBits_(r2, q, k - 1, 2 * acc)
RECURSIVE NormUp_(_, _, _)
NormUp_(p, q, e) == IF p >= q THEN <<p, q, e>> ELSE NormUp_(2 * p, q, e - 1)
RECURSIVE NormDown_(_, _, _)
NormDown_(p, q, e) == IF p < 2 * q THEN <<p, q, e>> ELSE NormDown_(p, 2 * q, e + 1)
FOfRatio(neg, p, q) ==
  IF p = 0 THEN FMake(neg, 0)
  ELSE
  LET up == NormUp_(p, q, 0)
      n == NormDown_(up[1], up[2], up[3])        \* q <= p < 2q, times 2^e
      d == DivBits_(n[1] - n[2], n[2], 23, 1)    \* 24 mantissa bits
      rup == 2 * d[2] > n[2] \/ (2 * d[2] = n[2] /\ d[1] % 2 = 1)
      m == IF rup THEN d[1] + 1 ELSE d[1]
  IN FMake(neg, (126 + n[3]) * 8388608 + m)

\* Distance in units in the last place, capped.
Ulps(x, y) ==
  IF FMag(x) > 2139095040 \/ FMag(y) > 2139095040 THEN BIG   \* NaN
  ELSE IF FNeg(x) = FNeg(y) THEN Abs_(FMag(x) - FMag(y))
  ELSE IF FMag(x) > 1000 \/ FMag(y) > 1000 THEN BIG
  ELSE FMag(x) + FMag(y)

\* Equal as numbers: bit-identical, or both zeros.
FIsNaN(x) == FMag(x) > 2139095040
FSame(x, y) == x = y \/ (FIsZero(x) /\ FIsZero(y)) \/ (FIsNaN(x) /\ FIsNaN(y))

-----------------------------------------------------------------------------
(* Fixed point for normalized vectors: 14 fractional bits.                   *)

ONE14 == 16384

RECURSIVE ISqrt_(_, _, _)
ISqrt_(n, lo, hi) ==          \* largest r with r*r <= n, lo <= r < hi
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF m * m <= n THEN ISqrt_(n, m, hi) ELSE ISqrt_(n, lo, m)
ISqrt(n) == ISqrt_(n, 0, 46341)

RECURSIVE ScaleUp_(_, _)
ScaleUp_(n, sh) == IF n >= 268435456 THEN <<n, sh>> ELSE ScaleUp_(4 * n, sh + 1)

\* <<r, sh>> with sqrt(n) ~ r / 2^sh, r in 2^14..2^15: relative error 2^-14.
\* Needs 0 < n < 2^30.
SqrtScaled(n) == LET s == ScaleUp_(n, 0) IN <<ISqrt(s[1]), s[2]>>

SqSum(s) == FoldLeft(LAMBDA acc, x : acc + x * x, 0, s)

\* s / |s| with 14 fractional bits for an integer vector s with |s|^2 < 2^30;
\* zero stays zero.
Unit14(s) ==
  LET n == SqSum(s) IN
  IF n = 0 THEN s
  ELSE LET r == SqrtScaled(n)
       IN Tup([i \in 1..Len(s) |->
            LET a == (Abs_(s[i]) * (2 ^ r[2]) * ONE14 + r[1] \div 2) \div r[1]
            IN IF s[i] < 0 THEN -a ELSE a])

Near(a, b, tol) == Abs_(a - b) <= tol

Dot(u, v) == FoldLeft(LAMBDA acc, i : acc + u[i] * v[i], 0, Tup([i \in 1..Len(u) |-> i]))
=============================================================================
