---------------------------- MODULE FFCheckBig ------------------------------
(* Clauses on recorded events about large embeddings (FFBig): any property,  *)
(* {op, act, big: p, ...}. What cannot be written down completely is         *)
(* recorded as the number of its digest and at sampled places.               *)
EXTENDS FFBig, FFCheckEmbed

BVecIs(r, a) ==
  CASE a.t = "row" -> r.t = "vec" /\ RowSame(r.v, BitsOf(BigRow(a.i)))
    [] a.t = "sum" -> r.t = "vec" /\ UnitClose(r.v, a.v)
    [] OTHER       -> r.t = "none"
BNormIs(bit, a) == IF a.t = "row" THEN bit = FOfInt(BigNorm(a.i)) ELSE LengthClose(bit, SqSum(a.v))

\* {q: [{w, idx, get, emb, wn, isin}]}
BigLook(p, q) ==
  LET l == BigLookup(p, q.w)
      a == BigAnswer(p, q.w)
  IN Chk("index", q.idx = l)
     \cup Chk("subscript", IF a.t = "none" THEN IsA(q.get, "KeyError") ELSE BVecIs(q.get, a))
     \cup Chk("embedding", BVecIs(q.emb, a))
     \cup Chk("with norm", IF a.t = "none" THEN q.wn.t = "none"
                           ELSE q.wn.t = "pair" /\ BVecIs([t |-> "vec", v |-> q.wn.v], a) /\ BNormIs(q.wn.n, a))
     \cup Chk("membership", q.isin = [t |-> "bool", v |-> BigPos(p.n, q.w) > 0])

\* {count, at: [{i, w, v, n}]}
BigIter(p, e) ==
  Chk("number", e.count = p.n)
  \cup Each(e.at, LAMBDA x : Chk("word", x.w = BigWord(x.i)) \cup Chk("row", RowSame(x.v, BitsOf(BigRow(x.i))))
                             \cup Chk("norm", x.n = <<FOfInt(BigNorm(x.i))>>))

\* a ranking of all words; d: exact direction of the query
BigRanked(p, res, k, skip, d, unit) ==
  LET n2 == SqSum(d)
      key(i) == Dot(BigRow(i), d)
      sk == {BigPos(p.n, w) : w \in skip} \ {0}
      pos == Tup([j \in 1..Len(res) |-> BigPos(p.n, res[j][1])])
      got == Elems(pos)
      n == Len(res)
  IN Chk("number of results", n = Min2(k, p.n - Cardinality(sk)))
     \cup Chk("distinct", Distinct(pos))
     \cup (IF 0 \in got \/ got \cap sk # {} THEN {"eligible words only"}
           ELSE Chk("sorted", \A j \in 1..(n - 1) : FLeq(res[j + 1][2], res[j][2]))
                \cup Chk("order of words", \A j \in 1..(n - 1) : key(pos[j + 1]) <= key(pos[j]))
                \cup Chk("similarity", \A j \in 1..n :
                         IF unit THEN ScaledClose(res[j][2], key(pos[j]), n2) ELSE FSame(res[j][2], FOfInt(key(pos[j]))))
                \cup (IF n = 0 THEN {}
                      ELSE LET low == Min({key(pos[j]) : j \in 1..n})
                           IN Chk("best words", \A i \in 1..p.n : key(i) <= low \/ i \in got \/ i \in sk)))
BigSim(p, q) ==
  IF q.kind = "vec"
  THEN IF q.res.t # "sims" THEN {"no ranking"} ELSE BigRanked(p, q.res.v, q.k, Elems(q.skip), q.vec, FALSE)
  ELSE LET a == BigAnswer(p, q.w) IN
       IF a.t = "none" THEN Chk("word without embedding gives None", q.res.t = "none")
       ELSE IF q.res.t # "sims" THEN {"no ranking"}
       ELSE IF a.t = "row" THEN BigRanked(p, q.res.v, q.k, {q.w}, BigRow(a.i), FALSE)
       ELSE BigRanked(p, q.res.v, q.k, {q.w}, a.v, TRUE)
\* three known words
BigAna(p, q) ==
  IF q.res.t # "sims" THEN {"no ranking"}
  ELSE LET r(w) == BigRow(BigPos(p.n, w))
       IN BigRanked(p, q.res.v, q.k, IF q.skip = <<>> THEN {q.a, q.b, q.c} ELSE Elems(q.skip[1]),
                    VAdd(VSub(r(q.b), r(q.a)), r(q.c)), TRUE)

\* {made, loads: [digest], sizes, samples}: fifu files
BigTrip(p, e) ==
  Chk("loaded differs", \A k \in 1..Len(e.loads) : e.loads[k] = [t |-> "id", v |-> e.made])
  \cup Chk("rewritten file differs", Cardinality(Elems(e.files)) = 1)

\* {size, chunks: [[id, length]], words, rows, norms: [{i, off, b}]}
BigLayout(p, e) ==
  Chk("size", e.size = BigSize(p))
  \cup Chk("header", e.head = Header(<<VocabId(p), ID_ND, ID_NORMS>>))
  \cup Chk("chunks", e.chunks = << <<VocabId(p), BigVocLen(p)>>, <<ID_ND, StoLen(p)>>, <<ID_NORMS, NrmLen(p)>> >>)
  \cup Each(e.words, LAMBDA x : Chk("word", x.off = WordAt(p, x.i) /\ x.b = Str(BigWord(x.i))))
  \cup Each(e.rows, LAMBDA x : Chk("row", x.off = RowAt(p, x.i) /\ x.b = Floats(BitsOf(BigRow(x.i)))))
  \cup Each(e.norms, LAMBDA x : Chk("norm", x.off = NormAt(p, x.i) /\ x.b = Floats(<<FOfInt(BigNorm(x.i))>>)))

\* {cuts: [{at, mmap, res}]}: nothing cut short loads
BigCut(p, e) == Each(e.cuts, LAMBDA x : Chk("cut file accepted", Raised(x.res)))

\* {parts: [{what, mmap, res: id, want: id}]}
BigParts(p, e) == Each(e.parts, LAMBDA x : Pre(x.what, Chk("component differs", x.res = [t |-> "id", v |-> x.want])))

\* {fmt, count, at: [{i, w, v, n}]}: loaded from a foreign format
BigForeign(p, e) ==
  IF e.res.t # "val" THEN {"cannot be written and loaded"}
  ELSE Chk("number", e.res.count = p.n)
       \cup Each(e.res.at, LAMBDA x :
              LET u == Tup([k \in 1..2 |-> BigNorm(x.i) * BigRow(x.i)[k]])
              IN Chk("word", x.w = BigWord(x.i)) \cup Chk("unit vector", UnitClose(x.v, u))
                 \cup Chk("norm", LengthClose(x.n, SqSum(u))))

\* {words, rows, norms sampled; grams: [{g, idx, row}]; q: [{w, before, after}], count}
BigExplicit(p, e) ==
  IF e.res.t # "val" THEN {"conversion fails"}
  ELSE LET x == e.res
           ix == BigIndexer(p)
           bucket == Tup([k \in 1..Len(x.grams) |-> U64Nat(IndexOf(ix, x.grams[k].g))])
           pairs == {<<bucket[k], x.grams[k].idx>> : k \in 1..Len(x.grams)}
       IN Chk("number of words", x.count = p.n)
          \cup Chk("range", x.lo = p.lo /\ x.hi = p.hi)
          \cup Chk("rows", x.rows = p.n + x.bound)
          \cup BigIter(p, [count |-> x.count, at |-> x.at])
          \cup Chk("same bucket same index", Cardinality({y[1] : y \in pairs}) = Cardinality(pairs)
                                             /\ Cardinality({y[2] : y \in pairs}) = Cardinality(pairs))
          \cup Each(x.grams, LAMBDA g : Chk("n-gram index", g.idx >= 0 /\ g.idx < x.bound))
          \cup Chk("n-gram rows", \A k \in 1..Len(x.grams) : RowSame(x.grams[k].row, BitsOf(BigRow(p.n + bucket[k] + 1))))
          \cup Each(x.q, LAMBDA q : LET a == BigAnswer(p, q.w) IN Chk("before", BVecIs(q.before, a)) \cup Chk("after", BVecIs(q.after, a)))

\* {acc: [{how, ix: [row numbers from 0], res: mat}]}: rows of the storage, some of them
BigAccess(p, e) ==
  Each(e.acc, LAMBDA x : IF x.res.t # "mat" THEN {x.how \o ": no matrix"}
       ELSE Chk(x.how \o ": number", x.res.count = x.count)
            \cup Chk(x.how \o ": rows", \A k \in 1..Len(x.ix) : RowSame(x.res.v[k], BitsOf(BigRow(x.ix[k] + 1)))))

\* N times the character c: its n-grams of length n, and what an indexer makes of them, as runs
\* <<value, how often>>. Three kinds of n-grams: at the start, inside, at the end.
RunGrams(q) ==
  LET in == Tup([k \in 1..q.n |-> q.c])
      m == Tup([k \in 1..(q.n - 1) |-> q.c])
      all == IF ~q.br THEN << <<in, q.N - q.n + 1>> >>
             ELSE << <<<<LT_>> \o m, 1>>, <<in, q.N - q.n + 1>>, <<m \o <<GT_>>, 1>> >>
  IN IF q.x.kind # "explicit" THEN all ELSE SelectSeq(all, LAMBDA r : r[1] \in Elems(q.x.ngrams))
Merge(runs) ==
  FoldLeft(LAMBDA acc, r : IF acc # <<>> /\ acc[Len(acc)][1] = r[1]
                           THEN [acc EXCEPT ![Len(acc)] = <<r[1], @[2] + r[2]>>] ELSE Append(acc, r), <<>>, runs)
RunIdx(q) ==
  LET g == RunGrams(q)
  IN Merge(Tup([k \in 1..Len(g) |-> <<U64Add(IndexOf(q.x, g[k][1]), q.off), g[k][2]>>]))
BigRuns(q) ==
  Chk("n-grams", q.grams = [t |-> "runs", v |-> RunGrams(q)])
  \cup (IF q.x.kind = "plain" THEN {} ELSE Chk("indices", q.idx = [t |-> "runs", v |-> RunIdx(q)]))

\* the embedding of such a word, with brackets: {c, N, n, br, x, emb, wn}, n-gram rows after the words'
BigLong(p, q) ==
  LET ix == BigIndexer(p)
      g == RunGrams([q EXCEPT !.x = ix])
      add(acc, r) == LET row == BigRow(p.n + U64Nat(IndexOf(ix, r[1])) + 1)
                     IN VAdd(acc, Tup([k \in 1..2 |-> r[2] * row[k]]))
      a == [t |-> "sum", v |-> FoldLeft(add, <<0, 0>>, g)]
  IN Chk("embedding", BVecIs(q.emb, a))
     \cup Chk("with norm", q.wn.t = "pair" /\ BVecIs([t |-> "vec", v |-> q.wn.v], a) /\ BNormIs(q.wn.n, a))

BigEvent(e) ==
  Pre("large " \o e.act,
    CASE e.act = "look"     -> Each(e.q, LAMBDA q : BigLook(e.big, q))
      [] e.act = "iter"     -> BigIter(e.big, e)
      [] e.act = "sim"      -> Each(e.q, LAMBDA q : BigSim(e.big, q))
      [] e.act = "ana"      -> Each(e.q, LAMBDA q : BigAna(e.big, q))
      [] e.act = "trip"     -> BigTrip(e.big, e)
      [] e.act = "layout"   -> BigLayout(e.big, e)
      [] e.act = "cut"      -> BigCut(e.big, e)
      [] e.act = "parts"    -> BigParts(e.big, e)
      [] e.act = "foreign"  -> BigForeign(e.big, e)
      [] e.act = "explicit" -> BigExplicit(e.big, e)
      [] e.act = "access"   -> BigAccess(e.big, e)
      [] e.act = "long"     -> Each(e.q, LAMBDA q : BigLong(e.big, q))
      [] e.act = "runs"     -> Each(e.q, LAMBDA q : BigRuns(q)))
=============================================================================
