------------------------------ MODULE FFDecimal ------------------------------
(* Reading decimal numerals as single precision floats, exactly. Big naturals*)
(* are little-endian sequences of base-10000 digits without leading zeros.   *)
EXTENDS FFFloat

BASE == 10000

RECURSIVE Carry_(_)
Carry_(c) == IF c = 0 THEN <<>> ELSE <<c % BASE>> \o Carry_(c \div BASE)

\* b * k for 0 < k < 2^16
BMul(b, k) ==
  LET r == FoldLeft(LAMBDA acc, d : LET x == d * k + acc[2] IN <<Append(acc[1], x % BASE), x \div BASE>>,
                    << <<>>, 0 >>, b)
  IN r[1] \o Carry_(r[2])
BOf(n) == Carry_(n)
RECURSIVE BMul2(_, _)
BMul2(b, e) == IF e = 0 THEN b ELSE IF e >= 13 THEN BMul2(BMul(b, 8192), e - 13) ELSE BMul(b, 2 ^ e)
BMul10(b, e) ==
  IF b = <<>> THEN b
  ELSE Tup([i \in 1..(e \div 4) |-> 0]) \o BMul(b, CASE e % 4 = 0 -> 1 [] e % 4 = 1 -> 10 [] e % 4 = 2 -> 100 [] OTHER -> 1000)
RECURSIVE BLess_(_, _, _)
BLess_(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLess_(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLess_(a, b, Len(a))

\* ---- numerals -------------------------------------------------------------

IsDigit(c) == c \in 48..57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
RECURSIVE BOfDigits_(_, _)
BOfDigits_(s, acc) ==          \* decimal digits, four at a time from the end
  IF s = <<>> THEN acc
  ELSE LET n == Len(s)
           k == Min2(4, n)
           d == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, SubSeq(s, n - k + 1, n))
       IN BOfDigits_(SubSeq(s, 1, n - k), Append(acc, d))
RECURSIVE Trim_(_)
Trim_(b) == IF b = <<>> THEN b ELSE IF b[Len(b)] = 0 THEN Trim_(SubSeq(b, 1, Len(b) - 1)) ELSE b
BOfDigits(s) == Trim_(BOfDigits_(s, <<>>))
IntOfDigits(s) == FoldLeft(LAMBDA a, c : IF a > 100000 THEN a ELSE 10 * a + (c - 48), 0, s)

\* [ok, neg, m, e]: value m * 10^e
Numeral(tok) ==
  LET sg == tok # <<>> /\ tok[1] \in {43, 45}
      t == IF sg THEN SubSeq(tok, 2, Len(tok)) ELSE tok
      ex == SelectInSeq(t, LAMBDA c : c \in {69, 101})
      man == IF ex = 0 THEN t ELSE SubSeq(t, 1, ex - 1)
      x == IF ex = 0 THEN <<48>> ELSE SubSeq(t, ex + 1, Len(t))
      xs == x # <<>> /\ x[1] \in {43, 45}
      xd == IF xs THEN SubSeq(x, 2, Len(x)) ELSE x
      dot == PosOf(man, 46)
      ip == IF dot = 0 THEN man ELSE SubSeq(man, 1, dot - 1)
      fp == IF dot = 0 THEN <<>> ELSE SubSeq(man, dot + 1, Len(man))
      xv == IntOfDigits(xd)
  IN [ok |-> AllDigits(ip \o fp) /\ ip \o fp # <<>> /\ AllDigits(xd) /\ xd # <<>>,
      neg |-> tok # <<>> /\ tok[1] = 45,
      m |-> BOfDigits(ip \o fp),
      e |-> (IF xs /\ x[1] = 45 THEN -xv ELSE xv) - Len(fp)]

\* Is bits the float nearest to the numeral (ties to even)? For finite bits.
RoundsTo(tok, bits) ==
  LET q == Numeral(tok)
      M == FMant(bits)
      P == FPow(bits)
      low == M = 8388608 /\ FExp(bits) > 1       \* a shorter step below
      \* compare 4 * value with (4M - 2) or (4M - 1) and (4M + 2), all times 2^P
      lhs == BMul2(BMul10(BMul(q.m, 4), IF q.e > 0 THEN q.e ELSE 0), IF P < 0 THEN -P ELSE 0)
      side(n) == BMul2(BMul10(BOf(n), IF q.e < 0 THEN -q.e ELSE 0), IF P > 0 THEN P ELSE 0)
      lo == side(4 * M - (IF low THEN 1 ELSE 2))
      hi == side(4 * M + 2)
  IN /\ q.ok /\ FFinite(bits)
     /\ IF M = 0 THEN IF q.m = <<>> THEN TRUE ELSE ~BLess(side(2), lhs)
        ELSE /\ q.m # <<>> /\ q.neg = FNeg(bits)
             /\ BLess(lo, lhs) \/ (lo = lhs /\ M % 2 = 0)
             /\ BLess(lhs, hi) \/ (lhs = hi /\ M % 2 = 0)
=============================================================================
