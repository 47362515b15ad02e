------------------------------- MODULE FFHash -------------------------------
(* The two published n-gram hashes.                                          *)
EXTENDS FFText, FFNgrams, Bitwise

-----------------------------------------------------------------------------
(* finalfusion: FNV-1a, 64 bit. Prime 2^40 + 435, limbs of 16 bits.          *)
Fnv64Init == <<8997, 33826, 40164, 52210>>     \* 0xcbf29ce484222325

Fnv64Step(h, byte) ==
  LET l0 == (h[1] - (h[1] % 256)) + ((h[1] % 256) ^^ byte)
      t0 == l0 * 435
      t1 == h[2] * 435 + t0 \div 65536
      t2 == h[3] * 435 + l0 * 256 + t1 \div 65536
      t3 == h[4] * 435 + h[2] * 256 + t2 \div 65536
  IN <<t0 % 65536, t1 % 65536, t2 % 65536, t3 % 65536>>

\* bytes hashed: number of characters as 64 bit, then each code point as 32 bit
FifuBytes(g) == LE(Len(g), 8) \o FoldLeft(LAMBDA acc, c : acc \o LE(c, 4), <<>>, g)
FifuHash(g) == FoldLeft(Fnv64Step, Fnv64Init, FifuBytes(g))

\* The low e bits (1 <= e <= 63).
LowBits(h, e) ==
  Tup([i \in 1..4 |-> LET k == e - 16 * (i - 1)
                      IN IF k >= 16 THEN h[i] ELSE IF k <= 0 THEN 0 ELSE h[i] % (2 ^ k)])
FifuIndex(g, e) == LowBits(FifuHash(g), e)
Pow2U64(e) == Tup([i \in 1..4 |-> LET k == e - 16 * (i - 1) IN IF k \in 0..15 THEN 2 ^ k ELSE 0])

-----------------------------------------------------------------------------
(* fastText: FNV-1a, 32 bit, prime 2^24 + 403, over the UTF-8 bytes widened  *)
(* as signed chars. State <<lo, hi>>, 16 bits each.                          *)
Fnv32Init == <<40389, 33052>>                  \* 0x811c9dc5

Fnv32Step(h, byte) ==
  LET lo == h[1] ^^ (IF byte >= 128 THEN 65280 + byte ELSE byte)
      hi == IF byte >= 128 THEN h[2] ^^ 65535 ELSE h[2]
      t0 == lo * 403
      t1 == hi * 403 + lo * 256 + t0 \div 65536
  IN <<t0 % 65536, t1 % 65536>>
FtHash(g) == FoldLeft(Fnv32Step, Fnv32Init, Utf8(g))

\* <<lo, hi>> modulo n, for 0 < n < 2^32 given as a U64. Bit-serial: the
\* remainder stays below n, kept as <<lo, hi>> because it may need 32 bits.
Less2(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
Sub2(a, b) == LET d == a[1] - b[1]
              IN IF d >= 0 THEN <<d, a[2] - b[2]>> ELSE <<d + 65536, a[2] - b[2] - 1>>
BitsMSB(h) == Tup([i \in 1..32 |-> IF i <= 16 THEN (h[2] \div (2 ^ (16 - i))) % 2
                                    ELSE (h[1] \div (2 ^ (32 - i))) % 2])
ModStep(r, bit, n) ==   \* (2r + bit) mod n; 2r may reach 33 bits, held in hi
  LET lo2 == 2 * r[1] + bit
      x == <<lo2 % 65536, 2 * r[2] + lo2 \div 65536>>
  IN IF Less2(x, n) THEN x ELSE Sub2(x, n)
Mod2(h, n) == FoldLeft(LAMBDA r, bit : ModStep(r, bit, n), <<0, 0>>, BitsMSB(h))

FtIndex(g, n) == LET r == Mod2(FtHash(g), <<n[1], n[2]>>) IN <<r[1], r[2], 0, 0>>
=============================================================================
