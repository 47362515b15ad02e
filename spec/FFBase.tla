------------------------------- MODULE FFBase -------------------------------
(* Shared vocabulary of the specification: sequences, little-endian byte     *)
(* strings, 64-bit words as four 16-bit limbs, and clause bookkeeping.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* TLC keeps [i \in 1..n |-> e] lazy; concatenation forces it into a tuple.
Tup(f) == f \o <<>>

\* A clause of a property: empty when it holds, its name otherwise.
Chk(name, c) == IF c THEN {} ELSE {name}

Elems(s) == {s[i] : i \in 1..Len(s)}

Abs_(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Concatenation of a sequence of sequences.
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

Distinct(s) == Cardinality(Elems(s)) = Len(s)

\* First position of x in s, 0 when absent.
PosOf(s, x) == SelectInSeq(s, LAMBDA y : y = x)

-----------------------------------------------------------------------------
(* Little-endian integers in byte strings. Offsets o count from 0.           *)

\* k bytes of the natural number n.
LE(n, k) == Tup([i \in 1..k |-> IF i > 4 THEN 0 ELSE (n \div (256 ^ (i - 1))) % 256])

\* Does b have k bytes from offset o on?
Has(b, o, k) == o + k <= Len(b)

Slice(b, o, k) == SubSeq(b, o + 1, o + k)

\* The natural number in k bytes at o; -1 when it is 2^31 or more.
NatAt(b, o, k) ==
  IF (\E i \in 5..k : b[o + i] # 0) \/ b[o + 4] >= 128 THEN -1
  ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]

\* The signed 32-bit number at o: how float32 bit patterns are written down.
I32At(b, o) ==
  b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3]
  + 16777216 * (IF b[o + 4] < 128 THEN b[o + 4] ELSE b[o + 4] - 256)

\* The 4 bytes of a signed 32-bit number.
I32Bytes(x) ==
  LET top == x \div 16777216           \* floor division: -128..127
      low == x - top * 16777216
  IN <<low % 256, (low \div 256) % 256, low \div 65536, IF top < 0 THEN top + 256 ELSE top>>

-----------------------------------------------------------------------------
(* 64-bit words: <<l0, l1, l2, l3>>, 16 bits each, least significant first.  *)

U64(n) == <<n % 65536, n \div 65536, 0, 0>>

U64Add(a, b) ==
  LET s0 == a[1] + b[1]
      s1 == a[2] + b[2] + (s0 \div 65536)
      s2 == a[3] + b[3] + (s1 \div 65536)
      s3 == a[4] + b[4] + (s2 \div 65536)
  IN <<s0 % 65536, s1 % 65536, s2 % 65536, s3 % 65536>>

U64Less(a, b) ==
  IF a[4] # b[4] THEN a[4] < b[4]
  ELSE IF a[3] # b[3] THEN a[3] < b[3]
  ELSE IF a[2] # b[2] THEN a[2] < b[2]
  ELSE a[1] < b[1]

U64Small(a) == a[3] = 0 /\ a[4] = 0 /\ a[2] < 32768
U64Nat(a) == a[1] + 65536 * a[2]

U64Bytes(a, k) == SubSeq(<<a[1] % 256, a[1] \div 256, a[2] % 256, a[2] \div 256,
                           a[3] % 256, a[3] \div 256, a[4] % 256, a[4] \div 256>>, 1, k)
=============================================================================
