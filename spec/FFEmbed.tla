------------------------------ MODULE FFEmbed -------------------------------
(* What embeddings answer: lookups, similarity and analogy queries and the   *)
(* conversion to explicit n-grams. Values are [meta, vocab, storage, norms]  *)
(* as in FFFormat; matrices used here hold small integers, so that sums and  *)
(* dot products are exact; with a field x, all of them times 2^x.            *)
EXTENDS FFFormat

Voc(e) == e.vocab[1]
Sto(e) == e.storage[1]
NWords(e) == Len(Voc(e).words)

Scale(e) == IF "x" \in DOMAIN e THEN e.x ELSE 0
IntRow(e, i) == LET x == Scale(e) IN
  IF x = 0 THEN Ints(Row(Sto(e), i)) ELSE Ints(Tup([k \in 1..Sto(e).cols |-> FShift(Row(Sto(e), i)[k], -x)]))

VAdd(u, v) == Tup([k \in 1..Len(u) |-> u[k] + v[k]])
VSub(u, v) == Tup([k \in 1..Len(u) |-> u[k] - v[k]])
Zeros(n) == Tup([k \in 1..n |-> 0])

\* Sum of the rows at the given U64 indices (from 0).
SumRows(e, idx) ==
  FoldLeft(LAMBDA acc, j : VAdd(acc, IntRow(e, U64Nat(j) + 1)), Zeros(Sto(e).cols), idx)

\* The answer to a lookup: a row, a sum to be normalized, or nothing.
Answer(e, w) ==
  LET r == Lookup(Voc(e), w) IN
  CASE r.t = "int"  -> [t |-> "row", i |-> U64Nat(r.v) + 1]
    [] r.t = "list" -> [t |-> "sum", v |-> SumRows(e, r.v)]
    [] OTHER        -> [t |-> "none"]

\* A reported float vector against s / |s|.
UnitClose(bits, s) ==
  LET u == Unit14(s)
  IN /\ Len(bits) = Len(s)
     /\ \A k \in 1..Len(s) : Near(FixQ(bits[k], 14), u[k], 3)
     /\ \A k \in 1..Len(s) : s[k] = 0 => FIsZero(bits[k])

\* A reported length against sqrt(n).
LengthClose(bit, n) ==
  IF n = 0 THEN FIsZero(bit)
  ELSE LET r == SqrtScaled(n) IN Near(FixQ(bit, r[2]), r[1], 3)

-----------------------------------------------------------------------------
(* Ranking. d: the exact (integer) direction of the query.                   *)

\* similarity of an integer row with the exact query vector d
DotI(e, i, d) == Dot(IntRow(e, i), d)

\* dot / sqrt(n2) with 10 fractional bits
Scaled10(dot, n2) ==
  IF n2 = 0 THEN 0
  ELSE LET r == SqrtScaled(n2)
           x == Abs_(dot) * (2 ^ r[2])
           a == (x \div r[1]) * 1024 + (((x % r[1]) * 1024) \div r[1])
       IN IF dot < 0 THEN -a ELSE a
ScaledClose(bit, dot, n2) ==
  LET s == Scaled10(dot, n2) IN Near(FixQ(bit, 10), s, 2 + (Abs_(s) \div 8192))

\* order on float bit patterns (no NaN)
FLeq(x, y) == IF FIsZero(x) /\ FIsZero(y) THEN TRUE
              ELSE IF FNeg(x) # FNeg(y) THEN FNeg(x)
              ELSE IF FNeg(x) THEN FMag(x) >= FMag(y) ELSE FMag(x) <= FMag(y)

Eligible(e, skip) == {i \in 1..NWords(e) : Voc(e).words[i] \notin skip}

\* Clauses of a ranking. res: sequence of <<word, similarity bits>>; key(i): exact
\* score of word i; slack: how much two scores may be apart to count as equal;
\* value(i, bits): is the reported similarity right?
RankFails(e, res, k, skip, key(_), slack, value(_, _)) ==
  LET el == Eligible(e, skip)
      pos == Tup([j \in 1..Len(res) |-> PosOf(Voc(e).words, res[j][1])])
      n == Len(res)
      inside == \A j \in 1..n : pos[j] \in el
  IN Chk("number of results", n = Min2(k, Cardinality(el)))
     \cup Chk("distinct", Distinct(pos))
     \cup Chk("eligible words only", inside)
     \cup (IF ~inside THEN {}
           ELSE Chk("sorted", \A j \in 1..(n - 1) : FLeq(res[j + 1][2], res[j][2]))
                \cup Chk("order of words", \A j \in 1..(n - 1) : key(pos[j + 1]) <= key(pos[j]) + slack)
                \cup Chk("similarity", \A j \in 1..n : value(pos[j], res[j][2]))
                \cup (IF n = 0 THEN {}
                      ELSE LET low == Min({key(pos[j]) : j \in 1..n})
                           IN Chk("best words", \A i \in el : (\E j \in 1..n : pos[j] = i) \/ key(i) <= low + slack)))

-----------------------------------------------------------------------------
(* Conversion to explicit n-grams.                                           *)

\* the exact form, up to the order of the n-grams: used by the design model
ToExplicit(e) ==
  LET v == Voc(e)
      gs == AllNGrams(v)
      bs == FoldLeft(LAMBDA acc, g : LET b == IndexOf(v, g) IN IF b \in Elems(acc) THEN acc ELSE Append(acc, b), <<>>, gs)
      n == Len(v.words)
  IN [meta |-> <<>>,
      vocab |-> <<[kind |-> "explicit", lo |-> v.lo, hi |-> v.hi, words |-> v.words, ngrams |-> gs,
                   table |-> Tup([k \in 1..Len(gs) |-> PosOf(bs, IndexOf(v, gs[k])) - 1])]>>,
      storage |-> <<[kind |-> "nd", cols |-> Sto(e).cols,
                     rows |-> Tup([i \in 1..(n + Len(bs)) |->
                        IF i <= n THEN Row(Sto(e), i) ELSE Row(Sto(e), n + U64Nat(bs[i - n]) + 1)])]>>,
      norms |-> e.norms]

\* Is x (projection with vocabulary v2 and rows) the explicit form of e?
ExplicitFails(x, e) ==
  LET v == Voc(e)
      v2 == x.vocab[1]
      n == Len(v.words)
      f == IsExplicitOf(v2, v)
      st == x.storage[1]
  IN f \cup Chk("norms", x.norms = e.norms)
     \cup Chk("dimensions", x.dims = Sto(e).cols /\ x.nwords = n)
     \cup (IF f # {} THEN {}
           ELSE Chk("rows", st.shape = <<n + TableBound(v2.table), Sto(e).cols>>)
                \cup (IF st.shape # <<n + TableBound(v2.table), Sto(e).cols>> THEN {}
                      ELSE Chk("word vectors", \A i \in 1..n : RowSame(st.rows[i], Row(Sto(e), i)))
                           \cup Chk("n-gram vectors",
                                \A k \in 1..Len(v2.ngrams) :
                                  RowSame(st.rows[n + v2.table[k] + 1],
                                          Row(Sto(e), n + U64Nat(IndexOf(v, v2.ngrams[k])) + 1)))))

\* answer of the explicit form of e
ExplicitAnswer(e, w) ==
  LET v == Voc(e)
      p == PosOf(v.words, w)
      gs == Elems(AllNGrams(v))
      known == SelectSeq(NGrams(w, v.lo, v.hi, TRUE), LAMBDA g : g \in gs)
  IN IF p > 0 THEN [t |-> "row", i |-> p]
     ELSE IF known = <<>> THEN [t |-> "none"]
     ELSE [t |-> "sum", v |-> SumRows(e, Tup([k \in 1..Len(known) |-> U64Add(IndexOf(v, known[k]), U64(Len(v.words)))]))]
=============================================================================
