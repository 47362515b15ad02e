------------------------------ MODULE FFVocab -------------------------------
(* Vocabularies and subword indexers.                                        *)
(*                                                                           *)
(* indexer: [kind, lo, hi, buckets, ngrams, table]                           *)
(*   kind "bucket"   : finalfusion hashing, buckets = exponent (natural)     *)
(*   kind "fasttext" : fastText hashing, buckets = number (U64)              *)
(*   kind "explicit" : ngrams (sequence of strings), table (index of each)   *)
(* vocabulary: an indexer (or kind "simple") with a field words.             *)
(* Indices are U64 values.                                                   *)
EXTENDS FFHash

\* ---- construction -------------------------------------------------------

ValidExp(e) == e \in 1..63
ValidBuckets(n) == n[3] = 0 /\ n[4] = 0 /\ (n[1] > 0 \/ n[2] > 0)

\* a table uses exactly the indices 0..b-1 for some b
GapFree(vals) == LET S == Elems(vals) IN S = {} \/ (Min(S) = 0 /\ Max(S) = Cardinality(S) - 1)
TableBound(vals) == IF vals = <<>> THEN 0 ELSE Max(Elems(vals)) + 1

\* keys/vals: the given table as two parallel sequences
ValidExplicit(ngrams, keys, vals) ==
  /\ Distinct(ngrams)
  /\ Elems(keys) = Elems(ngrams)
  /\ GapFree(vals)

\* ---- single n-grams -----------------------------------------------------

None == <<>>

\* Index of an n-gram, None when the indexer has none for it.
IndexOf(x, g) ==
  CASE x.kind = "bucket"   -> FifuIndex(g, x.buckets)
    [] x.kind = "fasttext" -> FtIndex(g, x.buckets)
    [] x.kind = "explicit" -> LET p == PosOf(x.ngrams, g)
                              IN IF p = 0 THEN None ELSE U64(x.table[p])
    [] OTHER               -> None

Bound(x) ==
  CASE x.kind = "bucket"   -> Pow2U64(x.buckets)
    [] x.kind = "fasttext" -> x.buckets
    [] x.kind = "explicit" -> U64(TableBound(x.table))
    [] OTHER               -> U64(0)

\* ---- whole words --------------------------------------------------------

\* <<n-gram, index + offset>> for every n-gram that has an index, in n-gram order.
Indexed(x, w, br, off) ==
  IF x.kind = "simple" THEN <<>>
  ELSE
  LET gs == NGrams(w, x.lo, x.hi, br)
      step(acc, g) == LET k == IndexOf(x, g)
                      IN IF k = None THEN acc ELSE Append(acc, <<g, U64Add(k, off)>>)
  IN FoldLeft(step, <<>>, gs)

SubIndices(x, w, br, off) ==
  LET s == Indexed(x, w, br, off) IN Tup([i \in 1..Len(s) |-> s[i][2]])

\* ---- vocabularies -------------------------------------------------------

ValidWords(words) == Distinct(words)
UpperBound(v) == U64Add(U64(Len(v.words)), Bound(v))

\* Lookup: a position, a non-empty list of subword indices, or nothing.
Lookup(v, w) ==
  LET p == PosOf(v.words, w) IN
  IF p > 0 THEN [t |-> "int", v |-> U64(p - 1)]
  ELSE LET s == SubIndices(v, w, TRUE, U64(Len(v.words)))
       IN IF s = <<>> THEN [t |-> "none"] ELSE [t |-> "list", v |-> s]

\* ---- conversion of hashed to explicit n-grams ---------------------------

\* n-grams of the known words in order of first occurrence
AllNGrams(v) ==
  LET add(acc, g) == IF g \in acc[2] THEN acc ELSE <<Append(acc[1], g), acc[2] \cup {g}>>
      word(acc, w) == FoldLeft(add, acc, NGrams(w, v.lo, v.hi, TRUE))
  IN FoldLeft(word, << <<>>, {} >>, v.words)[1]

\* Is e an explicit form of the hashed vocabulary v?
IsExplicitOf(e, v) ==
  LET gs == Elems(AllNGrams(v))
      same == Elems(e.ngrams) = gs /\ Distinct(e.ngrams) /\ Len(e.table) = Len(e.ngrams)
      \* bucket and index of each n-gram: a bijection exactly if sharing is kept
      pairs == Elems(Tup([k \in 1..Len(e.ngrams) |-> <<IndexOf(v, e.ngrams[k]), e.table[k]>>]))
  IN Chk("words", e.words = v.words)
     \cup Chk("range", e.lo = v.lo /\ e.hi = v.hi)
     \cup Chk("kind", e.kind = "explicit")
     \cup Chk("ngram set", same)
     \cup (IF same
           THEN Chk("gap-free", GapFree(e.table))
                \cup Chk("same bucket same index",
                         Cardinality({p[1] : p \in pairs}) = Cardinality(pairs)
                         /\ Cardinality({p[2] : p \in pairs}) = Cardinality(pairs))
           ELSE {})
=============================================================================
