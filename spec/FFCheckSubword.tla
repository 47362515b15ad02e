--------------------------- MODULE FFCheckSubword ---------------------------
(* Clauses of C06 (n-grams), C07 (hash indexers), C08 (explicit indexers)    *)
(* and C09 (vocabularies) on recorded events.                                *)
EXTENDS FFVocab, FFTraceBase

IsExc(r, name) == r.t = "exc" /\ name \in Elems(r.mro)

\* ---- C06 ----------------------------------------------------------------
\* {op, w, lo, hi, br, known: [] | [[ngram..]], res}
\* known: for explicit indexers the list of known n-grams (wrapped), else empty
C06Event(e) ==
  IF ~ValidRange(e.lo, e.hi) THEN Chk("invalid range accepted", Raised(e.res))
  ELSE LET all == NGrams(e.w, e.lo, e.hi, e.br)
           want == IF e.known = <<>> THEN all
                   ELSE LET K == Elems(e.known[1]) IN SelectSeq(all, LAMBDA g : g \in K)
       IN Chk("n-grams (" \o e.via \o ")", e.res.t = "strs" /\ e.res.v = want)

\* ---- C07 ----------------------------------------------------------------
ValidHash(x) == /\ ValidRange(x.lo, x.hi)
                /\ IF x.kind = "bucket" THEN ValidExp(x.buckets) ELSE ValidBuckets(x.buckets)

BulkFails(x, b) ==
  LET want == Indexed(x, b.w, b.br, b.off)
  IN Chk("bulk indices", b.idx.t = "list" /\ b.idx.v = Tup([i \in 1..Len(want) |-> want[i][2]]))
     \cup Chk("bulk pairs", b.pairs.t = "pairs" /\ b.pairs.v = want)

C07Event(e) ==
  LET x == e.x IN
  IF ~ValidHash(x) THEN Chk("invalid settings accepted", Raised(e.made))
  ELSE IF e.made.t # "val" THEN {"valid settings refused"}
  ELSE Chk("n-gram range reported", e.lo.t = "nat" /\ e.lo.v = x.lo /\ e.hi.t = "nat" /\ e.hi.v = x.hi)
       \cup Chk("buckets reported",
                e.buckets.t = "int"
                /\ e.buckets.v = IF x.kind = "bucket" THEN U64(x.buckets) ELSE x.buckets)
       \cup Chk("upper bound", e.ub.t = "int" /\ e.ub.v = Bound(x))
       \cup Each(e.single, LAMBDA s :
              LET k == IndexOf(x, s.g)
              IN Chk("hash", s.res.t = "int" /\ s.res.v = k)
                 \cup Chk("below bound", s.res.t = "int" /\ U64Less(s.res.v, Bound(x))))
       \cup Each(e.bulk, LAMBDA b : BulkFails(x, b))
       \cup Each(e.eq, LAMBDA q :
              Chk("equality", q.res.t = "bool"
                  /\ q.res.v = (q.kind = x.kind /\ q.lo = x.lo /\ q.hi = x.hi /\ q.buckets = x.buckets)))

\* ---- C08 ----------------------------------------------------------------
TabKeys(e) == IF e.tab = <<>> THEN e.ngrams ELSE e.tab[1].keys
TabVals(e) == IF e.tab = <<>> THEN Tup([i \in 1..Len(e.ngrams) |-> i - 1]) ELSE e.tab[1].vals
\* the table in the order of the n-gram list
TableOf(ngrams, keys, vals) == Tup([i \in 1..Len(ngrams) |-> vals[PosOf(keys, ngrams[i])]])
ExplicitOf(e) == [kind |-> "explicit", lo |-> e.lo, hi |-> e.hi, ngrams |-> e.ngrams,
                  table |-> TableOf(e.ngrams, TabKeys(e), TabVals(e))]

C08Event(e) ==
  LET valid == ValidRange(e.lo, e.hi) /\ ValidExplicit(e.ngrams, TabKeys(e), TabVals(e)) IN
  IF ~valid THEN Chk("invalid table accepted", Raised(e.made))
  ELSE IF e.made.t # "val" THEN {"valid table refused"}
  ELSE
  LET x == ExplicitOf(e) IN
       Chk("upper bound", e.ub.t = "int" /\ e.ub.v = Bound(x))
  \cup Chk("range", e.rlo.t = "nat" /\ e.rlo.v = e.lo /\ e.rhi.t = "nat" /\ e.rhi.v = e.hi)
  \cup Chk("length", e.len.t = "nat" /\ e.len.v = Len(e.ngrams))
  \cup Chk("iteration", e.iter.t = "strs" /\ e.iter.v = e.ngrams)
  \cup Chk("n-gram list", e.list.t = "strs" /\ e.list.v = e.ngrams)
  \cup Chk("n-gram table", e.index.t = "pairs"
           /\ Elems(e.index.v) = {<<e.ngrams[i], U64(x.table[i])>> : i \in 1..Len(e.ngrams)})
  \cup Each(e.single, LAMBDA s :
         LET k == IndexOf(x, s.g) IN
         IF k = None
         THEN Chk("call unknown", s.call.t = "none")
              \cup Chk("subscript unknown", IsExc(s.get, "KeyError"))
              \cup Chk("membership unknown", s.isin.t = "bool" /\ ~s.isin.v)
         ELSE Chk("call", s.call.t = "int" /\ s.call.v = k)
              \cup Chk("subscript", s.get.t = "int" /\ s.get.v = k)
              \cup Chk("membership", s.isin.t = "bool" /\ s.isin.v))
  \cup Each(e.bulk, LAMBDA b : BulkFails(x, b))
  \cup Each(e.allin, LAMBDA q :
         Chk("membership of lists", q.res.t = "bool" /\ q.res.v = (Elems(q.gs) \subseteq Elems(e.ngrams))))
  \cup Each(e.eq, LAMBDA q :
         LET y == ExplicitOf(q)
         IN Chk("equality", q.res.t = "bool" /\ q.res.v = (x = y)))
  \cup Chk("equality with others", e.eqother.t = "bool" /\ ~e.eqother.v)

\* ---- C09 ----------------------------------------------------------------
VQuery(v, q) ==
  LET r == Lookup(v, q.w)
      known == PosOf(v.words, q.w) > 0
      n == U64(Len(v.words))
      sub == Indexed(v, q.w, TRUE, n)
      bare == Indexed(v, q.w, FALSE, n)
      second(s) == Tup([i \in 1..Len(s) |-> s[i][2]])
      same(a, b) == a.t = b.t /\ (a.t \notin {"int", "list"} \/ a.v = b.v)
  IN Chk("membership", q.isin.t = "bool" /\ q.isin.v = known)
     \cup Chk("given default", \A i \in 1..Len(q.dd) :
                same(q.dd[i].res, IF r.t = "int" \/ r.t = "list" THEN q.idx ELSE q.dd[i].d))
     \cup (CASE r.t = "int"  -> Chk("index of known word", q.idx.t = "int" /\ q.idx.v = r.v)
                                \cup Chk("index of known word, default", q.idxd.t = "int" /\ q.idxd.v = r.v)
                                \cup Chk("subscript of known word", q.get.t = "int" /\ q.get.v = r.v)
             [] r.t = "list" -> Chk("subwords of unknown word", q.idx.t = "list" /\ q.idx.v = r.v)
                                \cup Chk("subwords of unknown word, default", q.idxd.t = "list" /\ q.idxd.v = r.v)
                                \cup Chk("subscript of unknown word", q.get.t = "list" /\ q.get.v = r.v)
                                \cup Chk("subword indices in range",
                                         q.idx.t = "list" /\ \A i \in 1..Len(q.idx.v) :
                                           ~U64Less(q.idx.v[i], n) /\ U64Less(q.idx.v[i], UpperBound(v)))
             [] OTHER        -> Chk("no default", q.idx.t = "none")
                                \cup Chk("default", q.idxd.t = "str" /\ q.idxd.v = q.dflt)
                                \cup Chk("KeyError", IsExc(q.get, "KeyError")))
     \cup (IF v.kind = "simple" THEN {}
           ELSE Chk("subword indices", q.sub.t = "list" /\ q.sub.v = second(sub))
                \cup Chk("subword pairs", q.pairs.t = "pairs" /\ q.pairs.v = sub)
                \cup Chk("unbracketed subword indices", q.bare.t = "list" /\ q.bare.v = second(bare)))

C09Event(e) ==
  LET v == e.v IN
  IF ~ValidWords(v.words) THEN Chk("duplicate words accepted", Raised(e.made))
  ELSE IF e.made.t # "val" THEN {"valid vocabulary refused"}
  ELSE Chk("length", e.len.t = "nat" /\ e.len.v = Len(v.words))
       \cup Chk("iteration", e.iter.t = "strs" /\ e.iter.v = v.words)
       \cup Chk("words", e.words.t = "strs" /\ e.words.v = v.words)
       \cup Chk("word index", e.index.t = "pairs"
                /\ Elems(e.index.v) = {<<v.words[i], U64(i - 1)>> : i \in 1..Len(v.words)})
       \cup Chk("upper bound", e.ub.t = "int" /\ e.ub.v = UpperBound(v))
       \cup Chk("n-gram range", v.kind = "simple" \/ (e.lo.t = "nat" /\ e.lo.v = v.lo /\ e.hi.t = "nat" /\ e.hi.v = v.hi))
       \cup Each(e.allin, LAMBDA q :
              Chk("membership of lists", q.res.t = "bool" /\ q.res.v = (Elems(q.ws) \subseteq Elems(v.words))))
       \cup Chk("membership of numbers", e.numin.t = "bool" /\ ~e.numin.v)
       \cup Each(e.eq, LAMBDA q :
              Chk("equality", q.res.t = "bool" /\ q.res.v = (v.kind = q.v.kind /\ v = q.v))
              \cup Chk("equality, other way", q.rev = q.res)
              \cup Chk("inequality", q.ne.t = "bool" /\ q.ne.v = ~(v.kind = q.v.kind /\ v = q.v)))
       \cup Chk("equality with others", \A k \in 1..Len(e.eqother) : e.eqother[k].t = "bool" /\ ~e.eqother[k].v)
       \cup Each(e.q, LAMBDA q : VQuery(v, q))
=============================================================================
