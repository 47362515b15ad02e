------------------------------- MODULE FFBig --------------------------------
(* Embeddings too large to be written down: given by formulas.               *)
(*   p: [n, kind, lo, hi, buckets, sto]                                      *)
(* The i-th word (from 1) is "w" and the numeral of i - 1; the i-th row, of  *)
(* words and n-grams alike, is BigRow(i); the i-th norm is BigNorm(i).       *)
EXTENDS FFEmbed

RECURSIVE NumeralOf(_)
NumeralOf(k) == IF k < 10 THEN <<48 + k>> ELSE Append(NumeralOf(k \div 10), 48 + (k % 10))
BigWord(i) == <<119>> \o NumeralOf(i - 1)
\* its inverse: the position of w, 0 if it is not one of the n words
BigPos(n, w) ==
  IF Len(w) < 2 \/ Len(w) > 9 THEN 0
  ELSE IF w[1] # 119 \/ \E j \in 2..Len(w) : w[j] \notin 48..57 THEN 0
  ELSE LET k == FoldLeft(LAMBDA acc, d : acc * 10 + (d - 48), 0, Tail(w))
       IN IF k < n /\ w = BigWord(k + 1) THEN k + 1 ELSE 0

\* the extremes are far from the start
BigRow(i) == <<IF i > 4000 /\ i % 101 = 0 THEN -9 - ((i \div 101) % 20)
               ELSE IF i > 4000 /\ i % 97 = 0 THEN 9 + ((i \div 97) % 20)
               ELSE (((i - 1) * 7) % 17) - 8,
               (((i - 1) \div 3) % 13) - 6>>
BigNorm(i) == ((i - 1) % 5) + 1

\* numerals written for the first n words
Ten(j) == 10 ^ j
DigitsBelow(n) == SumSeq([j \in 1..9 |-> IF n > Ten(j) THEN n - Ten(j) ELSE 0]) + n
BigBytes(n) == n + DigitsBelow(n)      \* UTF-8 bytes of all words

BigIndexer(p) == [kind |-> p.kind, lo |-> p.lo, hi |-> p.hi, buckets |-> p.buckets, words |-> <<>>]
BigRows(p) == p.n + (IF p.kind = "simple" THEN 0 ELSE U64Nat(Bound(BigIndexer(p))))
BigLookup(p, w) ==
  LET i == BigPos(p.n, w) IN
  IF i > 0 THEN [t |-> "int", v |-> U64(i - 1)]
  ELSE IF p.kind = "simple" THEN [t |-> "none"]
  ELSE LET s == SubIndices(BigIndexer(p), w, TRUE, U64(p.n))
       IN IF s = <<>> THEN [t |-> "none"] ELSE [t |-> "list", v |-> s]
BigAnswer(p, w) ==
  LET r == BigLookup(p, w) IN
  CASE r.t = "int"  -> [t |-> "row", i |-> U64Nat(r.v) + 1]
    [] r.t = "list" -> [t |-> "sum", v |-> FoldLeft(LAMBDA acc, j : VAdd(acc, BigRow(U64Nat(j) + 1)), <<0, 0>>, r.v)]
    [] OTHER        -> [t |-> "none"]
BitsOf(v) == Tup([k \in 1..Len(v) |-> FOfInt(v[k])])

-----------------------------------------------------------------------------
(* The file of such embeddings with array storage and norms: offsets from 0. *)
PadLen(pos) == 4 - (pos % 4)
VocFixed(p) == IF p.kind = "simple" THEN 8 ELSE 20
BigVocLen(p) == VocFixed(p) + 4 * p.n + BigBytes(p.n)
WordAt(p, i) == 24 + 12 + VocFixed(p) + 4 * (i - 1) + BigBytes(i - 1)
StoAt(p) == 24 + 12 + BigVocLen(p)
StoLen(p) == 16 + PadLen(StoAt(p) + 28) + 8 * BigRows(p)
NrmAt(p) == StoAt(p) + 12 + StoLen(p)
NrmLen(p) == 12 + PadLen(NrmAt(p) + 24) + 4 * p.n
BigSize(p) == NrmAt(p) + 12 + NrmLen(p)
RowAt(p, i) == NrmAt(p) - 8 * (BigRows(p) - i + 1)
NormAt(p, i) == BigSize(p) - 4 * (p.n - i + 1)
=============================================================================
