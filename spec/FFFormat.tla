------------------------------ MODULE FFFormat ------------------------------
(* The finalfusion file format: layout (Encode) and reading (Parse).         *)
(*                                                                           *)
(* embeddings: [vocab, storage, norms, meta]; norms <<>> or <<vector>>,      *)
(* meta <<>> or <<bytes of the TOML text>>.                                  *)
EXTENDS FFVocab, FFStorage

Magic == <<70, 105, 70, 117>>
ID_SIMPLE == 1   ID_ND == 2     ID_BUCKET == 3  ID_PQ == 4
ID_META == 5     ID_NORMS == 6  ID_FASTTEXT == 7  ID_EXPLICIT == 8
VocabIds == {ID_SIMPLE, ID_BUCKET, ID_FASTTEXT, ID_EXPLICIT}
StorageIds == {ID_ND, ID_PQ}

ANY == -1            \* a byte the format leaves open (padding)

VocabId(v) == CASE v.kind = "simple" -> ID_SIMPLE [] v.kind = "bucket" -> ID_BUCKET
                [] v.kind = "fasttext" -> ID_FASTTEXT [] v.kind = "explicit" -> ID_EXPLICIT
StorageId(s) == IF s.kind = "nd" THEN ID_ND ELSE ID_PQ

\* ---- layout -------------------------------------------------------------

Str(w) == LET b == Utf8(w) IN LE(Len(b), 4) \o b
Strs(ws) == FoldLeft(LAMBDA acc, w : acc \o Str(w), <<>>, ws)
Floats(v) == LET bs == Tup([k \in 1..Len(v) |-> I32Bytes(v[k])])
             IN Tup([k \in 1..(4 * Len(v)) |-> bs[((k - 1) \div 4) + 1][((k - 1) % 4) + 1]])
FloatRows(m) == FoldLeft(LAMBDA acc, v : acc \o Floats(v), <<>>, m)
Padding(pos) == Tup([k \in 1..(4 - (pos % 4)) |-> ANY])

VocabBody(v) ==
  CASE v.kind = "simple"   -> LE(Len(v.words), 8) \o Strs(v.words)
    [] v.kind = "bucket"   -> LE(Len(v.words), 8) \o LE(v.lo, 4) \o LE(v.hi, 4)
                              \o LE(v.buckets, 4) \o Strs(v.words)
    [] v.kind = "fasttext" -> LE(Len(v.words), 8) \o LE(v.lo, 4) \o LE(v.hi, 4)
                              \o U64Bytes(v.buckets, 4) \o Strs(v.words)
    [] v.kind = "explicit" -> LE(Len(v.words), 8) \o LE(Len(v.ngrams), 8)
                              \o LE(v.lo, 4) \o LE(v.hi, 4) \o Strs(v.words)
                              \o FoldLeft(LAMBDA acc, k : acc \o Str(v.ngrams[k]) \o LE(v.table[k], 8),
                                          <<>>, Tup([k \in 1..Len(v.ngrams) |-> k]))

\* pos: where the chunk's body starts in the file
StorageBody(s, pos) ==
  IF s.kind = "nd"
  THEN LE(NRows(s), 8) \o LE(s.cols, 4) \o LE(10, 4) \o Padding(pos + 16) \o FloatRows(s.rows)
  ELSE LE(IF s.proj = <<>> THEN 0 ELSE 1, 4) \o LE(IF s.norms = <<>> THEN 0 ELSE 1, 4)
       \o LE(Len(s.sub), 4) \o LE(s.cols, 4) \o LE(s.ncent, 4) \o LE(NRows(s), 8)
       \o LE(1, 4) \o LE(10, 4) \o Padding(pos + 36)
       \o (IF s.proj = <<>> THEN <<>> ELSE FloatRows(s.proj[1]))
       \o FoldLeft(LAMBDA acc, m : acc \o FloatRows(m), <<>>, s.sub)
       \o (IF s.norms = <<>> THEN <<>> ELSE Floats(s.norms[1]))
       \o Flat(s.codes)
NormsBody(n, pos) == LE(Len(n), 8) \o LE(10, 4) \o Padding(pos + 12) \o Floats(n)

\* The chunks of a value, as <<identifier, what>>.
ChunksOf(e) ==
     (IF e.meta = <<>> THEN <<>> ELSE << <<ID_META, "meta">> >>)
  \o (IF e.vocab = <<>> THEN <<>> ELSE << <<VocabId(e.vocab[1]), "vocab">> >>)
  \o (IF e.storage = <<>> THEN <<>> ELSE << <<StorageId(e.storage[1]), "storage">> >>)
  \o (IF e.norms = <<>> THEN <<>> ELSE << <<ID_NORMS, "norms">> >>)

Header(ids) == Magic \o LE(0, 4) \o LE(Len(ids), 4)
               \o FoldLeft(LAMBDA acc, x : acc \o LE(x, 4), <<>>, ids)

Body(e, what, pos) ==
  CASE what = "meta"    -> e.meta[1]
    [] what = "vocab"   -> VocabBody(e.vocab[1])
    [] what = "storage" -> StorageBody(e.storage[1], pos)
    [] what = "norms"   -> NormsBody(e.norms[1], pos)

\* e: [meta, vocab, storage, norms], each <<>> or <<value>>; order: sequence of
\* <<identifier, what>>.
EncodeIn(e, order) ==
  LET add(acc, c) == LET body == Body(e, c[2], Len(acc) + 12)
                     IN acc \o LE(c[1], 4) \o LE(Len(body), 8) \o body
  IN FoldLeft(add, Header(Tup([k \in 1..Len(order) |-> order[k][1]])), order)
Encode(e) == EncodeIn(e, ChunksOf(e))

\* Concrete bytes: padding as zeros.
Concrete(b) == Tup([k \in 1..Len(b) |-> IF b[k] = ANY THEN 0 ELSE b[k]])

Matches(b, want) == Len(b) = Len(want) /\ \A k \in 1..Len(b) : want[k] \in {ANY, b[k]}

\* Clauses of the layout of a written file b of a value e.
LayoutFails(b, e) ==
  LET order == ChunksOf(e)
      hdr == Header(Tup([k \in 1..Len(order) |-> order[k][1]]))
      step(acc, c) ==       \* acc: [pos, fails]
        IF acc.pos < 0 THEN acc
        ELSE LET body == Body(e, c[2], acc.pos + 12)
                 got == Slice(b, acc.pos, Min2(12, Len(b) - acc.pos))
             IN IF Len(b) < acc.pos + 12
                THEN [pos |-> -1, fails |-> acc.fails \cup {c[2] \o ": chunk missing"}]
                ELSE [pos |-> IF Len(b) < acc.pos + 12 + Len(body) THEN -1
                              ELSE acc.pos + 12 + Len(body),
                      fails |-> acc.fails
                        \cup Chk(c[2] \o ": identifier", SubSeq(got, 1, 4) = LE(c[1], 4))
                        \cup Chk(c[2] \o ": length field", SubSeq(got, 5, 12) = LE(Len(body), 8))
                        \cup Chk(c[2] \o ": body",
                                 /\ Len(b) >= acc.pos + 12 + Len(body)
                                 /\ Matches(Slice(b, acc.pos + 12, Len(body)), body))]
      r == FoldLeft(step, [pos |-> Len(hdr), fails |-> {}], order)
  IN Chk("header", Len(b) >= Len(hdr) /\ Slice(b, 0, Len(hdr)) = hdr)
     \cup (IF Len(b) < Len(hdr) THEN {} ELSE
           r.fails \cup Chk("end of file", r.pos = -1 \/ r.pos = Len(b)))

\* ---- reading ------------------------------------------------------------
(* Parsers return [st, pos, val]: st "ok", "bad" (the format is violated:    *)
(* must be refused) or "open" (the format leaves it open).                   *)

Bad == [st |-> "bad", pos |-> 0, val |-> <<>>]
Ok(p, v) == [st |-> "ok", pos |-> p, val |-> v]

ReadStr(b, o) ==
  IF ~Has(b, o, 4) THEN Bad
  ELSE LET n == NatAt(b, o, 4) IN
       IF n < 0 \/ n > Len(b) - o - 4 THEN Bad
       ELSE LET d == Utf8Decode(Slice(b, o + 4, n))
            IN IF d.ok THEN Ok(o + 4 + n, d.word) ELSE Bad

RECURSIVE ReadStrs(_, _, _, _)
ReadStrs(b, o, n, acc) ==
  IF n = 0 THEN Ok(o, acc)
  ELSE LET s == ReadStr(b, o)
       IN IF s.st # "ok" THEN Bad ELSE ReadStrs(b, s.pos, n - 1, Append(acc, s.val))

RECURSIVE ReadIdxStrs(_, _, _, _)
ReadIdxStrs(b, o, n, acc) ==          \* n-grams with indices
  IF n = 0 THEN Ok(o, acc)
  ELSE LET s == ReadStr(b, o) IN
       IF s.st # "ok" \/ ~Has(b, s.pos, 8) THEN Bad
       ELSE ReadIdxStrs(b, s.pos + 8, n - 1, Append(acc, <<s.val, NatAt(b, s.pos, 8)>>))

Count(b, o, k, per) ==       \* a count of things of at least `per` bytes each, -1 if impossible
  IF ~Has(b, o, k) THEN -1
  ELSE LET n == NatAt(b, o, k) IN IF n < 0 \/ n > (Len(b) - o) \div per THEN -1 ELSE n

ReadVocab(b, o, id) ==
  LET n == Count(b, o, 8, 4) IN
  IF n < 0 THEN Bad
  ELSE
  CASE id = ID_SIMPLE ->
         LET w == ReadStrs(b, o + 8, n, <<>>)
         IN IF w.st = "ok" /\ ValidWords(w.val) THEN Ok(w.pos, [kind |-> "simple", words |-> w.val]) ELSE Bad
    [] id \in {ID_BUCKET, ID_FASTTEXT} ->
         IF ~Has(b, o + 8, 12) THEN Bad
         ELSE LET lo == NatAt(b, o + 8, 4)   hi == NatAt(b, o + 12, 4)
                  bk == <<b[o + 17] + 256 * b[o + 18], b[o + 19] + 256 * b[o + 20], 0, 0>>
                  w == ReadStrs(b, o + 20, n, <<>>)
                  good == /\ w.st = "ok" /\ ValidWords(w.val) /\ ValidRange(lo, hi)
                          /\ IF id = ID_BUCKET THEN U64Small(bk) /\ ValidExp(U64Nat(bk)) ELSE ValidBuckets(bk)
              IN IF lo < 0 \/ hi < 0 THEN [Bad EXCEPT !.st = "open"]
                 ELSE IF ~good THEN Bad
                 ELSE Ok(w.pos, [kind |-> IF id = ID_BUCKET THEN "bucket" ELSE "fasttext",
                                 lo |-> lo, hi |-> hi,
                                 buckets |-> IF id = ID_BUCKET THEN U64Nat(bk) ELSE bk,
                                 words |-> w.val])
    [] id = ID_EXPLICIT ->
         IF ~Has(b, o + 8, 16) THEN Bad
         ELSE LET m == Count(b, o + 8, 8, 12)
                  lo == NatAt(b, o + 16, 4)   hi == NatAt(b, o + 20, 4)
                  w == ReadStrs(b, o + 24, n, <<>>)
                  g == IF m < 0 \/ w.st # "ok" THEN Bad ELSE ReadIdxStrs(b, w.pos, m, <<>>)
                  ng == Tup([k \in 1..Len(g.val) |-> g.val[k][1]])
                  tb == Tup([k \in 1..Len(g.val) |-> g.val[k][2]])
              IN IF lo < 0 \/ hi < 0 THEN [Bad EXCEPT !.st = "open"]
                 ELSE IF g.st # "ok" THEN Bad
                 ELSE IF ~(ValidWords(w.val) /\ ValidRange(lo, hi) /\ ValidExplicit(ng, ng, tb)) THEN Bad
                 ELSE Ok(g.pos, [kind |-> "explicit", lo |-> lo, hi |-> hi,
                                 ngrams |-> ng, table |-> tb, words |-> w.val])

ReadFloats(b, o, n) == Tup([k \in 1..n |-> I32At(b, o + 4 * (k - 1))])
ReadRows(b, o, r, c) == Tup([i \in 1..r |-> ReadFloats(b, o + 4 * c * (i - 1), c)])

ReadNd(b, o) ==
  IF ~Has(b, o, 16) THEN Bad
  ELSE LET r == NatAt(b, o, 8)  c == NatAt(b, o + 8, 4)
           d == o + 16 + (4 - ((o + 16) % 4))
       IN IF NatAt(b, o + 12, 4) # 10 \/ d > Len(b) THEN Bad
          ELSE IF c = 0 THEN (IF r < 0 \/ r > 100000 THEN [Bad EXCEPT !.st = "open"]
                              ELSE Ok(d, [kind |-> "nd", cols |-> 0, rows |-> Tup([i \in 1..r |-> <<>>])]))
          ELSE IF r = 0 /\ c > 0 THEN Ok(d, [kind |-> "nd", cols |-> c, rows |-> <<>>])
          ELSE IF r < 0 \/ c < 0 \/ r > (Len(b) - d) \div 4 \/ c > (Len(b) - d) \div 4 THEN
               (IF r = 0 THEN [Bad EXCEPT !.st = "open"] ELSE Bad)
          ELSE IF r * c > (Len(b) - d) \div 4 THEN Bad
          ELSE Ok(d + 4 * r * c, [kind |-> "nd", cols |-> c, rows |-> ReadRows(b, d, r, c)])

ReadPq(b, o) ==
  IF ~Has(b, o, 36) THEN Bad
  ELSE LET pj == NatAt(b, o, 4)   nm == NatAt(b, o + 4, 4)
           q == NatAt(b, o + 8, 4)  c == NatAt(b, o + 12, 4)  k == NatAt(b, o + 16, 4)
           r == NatAt(b, o + 20, 8)
           d0 == o + 36 + (4 - ((o + 36) % 4))
           L == Len(b)
           small == q \in 0..L /\ c \in 0..L /\ k \in 0..L /\ r \in 0..L
       IN IF NatAt(b, o + 28, 4) # 1 \/ NatAt(b, o + 32, 4) # 10 \/ q = 0 THEN Bad
          ELSE IF ~small THEN (IF k = 0 \/ r = 0 \/ c = 0 THEN [Bad EXCEPT !.st = "open"] ELSE Bad)
          ELSE IF c % q # 0 THEN Bad
          ELSE IF c = 0 \/ k = 0 THEN [Bad EXCEPT !.st = "open"]
          ELSE IF (pj # 0 /\ c > 300) \/ k > L \div q THEN Bad
          ELSE LET s == c \div q
                   d1 == d0 + (IF pj = 0 THEN 0 ELSE 4 * c * c)
                   d2 == d1 + 4 * c * k
                   d3 == d2 + (IF nm = 0 THEN 0 ELSE 4 * r)
                   d4 == d3 + r * q
               IN IF d1 > L \/ c * k > L \/ d2 > L \/ d3 > L \/ r > (L - d3) \div q THEN Bad
                  ELSE LET codes == Tup([i \in 1..r |-> Slice(b, d3 + q * (i - 1), q)])
                           val == [kind |-> "pq", cols |-> c, ncent |-> k,
                                   proj |-> IF pj = 0 THEN <<>> ELSE <<ReadRows(b, d0, c, c)>>,
                                   sub |-> Tup([m \in 1..q |-> ReadRows(b, d1 + 4 * s * k * (m - 1), k, s)]),
                                   norms |-> IF nm = 0 THEN <<>> ELSE <<ReadFloats(b, d2, r)>>,
                                   codes |-> codes]
                       IN IF pj \notin {0, 1} \/ nm \notin {0, 1}
                             \/ \E i \in 1..r : \E j \in 1..q : codes[i][j] >= k
                          THEN [st |-> "open", pos |-> d4, val |-> val]
                          ELSE Ok(d4, val)

ReadNorms(b, o) ==
  IF ~Has(b, o, 12) THEN Bad
  ELSE LET n == NatAt(b, o, 8)
           d == o + 12 + (4 - ((o + 12) % 4))
       IN IF NatAt(b, o + 8, 4) # 10 \/ d > Len(b) \/ n < 0 \/ n > (Len(b) - d) \div 4 THEN Bad
          ELSE Ok(d + 4 * n, ReadFloats(b, d, n))

ReadStorage(b, o, id) == IF id = ID_ND THEN ReadNd(b, o) ELSE ReadPq(b, o)

\* Header: position behind it and the identifiers.
ReadHeader(b) ==
  IF ~Has(b, 0, 12) \/ Slice(b, 0, 4) # Magic \/ Slice(b, 4, 4) # LE(0, 4) THEN Bad
  ELSE LET n == NatAt(b, 8, 4) IN
       IF n <= 0 \/ n > (Len(b) - 12) \div 4 THEN Bad
       ELSE Ok(12 + 4 * n, Tup([k \in 1..n |-> NatAt(b, 12 + 4 * (k - 1), 4)]))

\* A whole embeddings file.
Parse(b) ==
  LET h == ReadHeader(b) IN
  IF h.st # "ok" THEN Bad
  ELSE
  LET o1 == h.pos
      isMeta == Has(b, o1, 12) /\ NatAt(b, o1, 4) = ID_META
      ml == IF isMeta THEN Count(b, o1 + 4, 8, 1) ELSE 0
      metaBad == isMeta /\ (ml < 0 \/ ml > Len(b) - o1 - 12)
      meta == IF isMeta /\ ~metaBad THEN <<Slice(b, o1 + 12, ml)>> ELSE <<>>
      o2 == IF isMeta /\ ~metaBad THEN o1 + 12 + ml ELSE o1
      vid == IF Has(b, o2, 12) THEN NatAt(b, o2, 4) ELSE -1
  IN IF metaBad \/ vid \notin VocabIds THEN Bad
     ELSE
     LET v == ReadVocab(b, o2 + 12, vid) IN
     IF isMeta /\ ~Utf8Decode(meta[1]).ok THEN Bad
     ELSE IF v.st # "ok" THEN v
     ELSE LET o3 == v.pos
              sid == IF Has(b, o3, 12) THEN NatAt(b, o3, 4) ELSE -1
          IN IF sid \notin StorageIds THEN Bad
             ELSE
             LET s == ReadStorage(b, o3 + 12, sid) IN
             IF s.st = "bad" \/ (s.st = "open" /\ s.pos = 0) THEN s
             ELSE LET o4 == s.pos
                      announced == ID_NORMS \in Elems(h.val)
                      n == IF o4 = Len(b) THEN Ok(o4, <<>>)
                           ELSE IF ~Has(b, o4, 12) \/ NatAt(b, o4, 4) # ID_NORMS THEN Bad
                           ELSE LET x == ReadNorms(b, o4 + 12)
                                IN IF x.st = "ok" THEN Ok(x.pos, <<x.val>>) ELSE x
                      want == UpperBound(v.val)
                      ids == (IF isMeta THEN <<ID_META>> ELSE <<>>) \o <<vid, sid>>
                             \o (IF n.val = <<>> THEN <<>> ELSE <<ID_NORMS>>)
                  IN IF n.st = "bad" \/ (n.val = <<>> /\ announced) THEN Bad
                     ELSE IF U64(NRows(s.val)) # want THEN Bad
                     ELSE IF n.val # <<>> /\ Len(n.val[1]) # Len(v.val.words) THEN Bad
                     ELSE [st |-> IF s.st = "open" \/ h.val # ids \/ n.pos # Len(b)
                                     \/ NatAt(b, o2 + 4, 8) # v.pos - (o2 + 12)
                                     \/ NatAt(b, o3 + 4, 8) # s.pos - (o3 + 12)
                                     \/ (n.val # <<>> /\ NatAt(b, o4 + 4, 8) # n.pos - (o4 + 12))
                                  THEN "open" ELSE "ok",
                           pos |-> n.pos,
                           val |-> [meta |-> meta, vocab |-> <<v.val>>, storage |-> <<s.val>>, norms |-> n.val]]

\* Looking for one kind of chunk: position of its body, 0 when there is none, -1
\* when the file ends or turns malformed on the way.
RECURSIVE Walk_(_, _, _)
Walk_(b, o, ids) ==
  IF o = Len(b) THEN 0
  ELSE IF o > Len(b) \/ ~Has(b, o, 12) THEN -1
  ELSE IF NatAt(b, o, 4) \notin (VocabIds \cup StorageIds \cup {0, ID_META, ID_NORMS}) THEN -1
  ELSE IF NatAt(b, o, 4) \in ids THEN o + 12
  ELSE LET n == NatAt(b, o + 4, 8) IN IF n < 0 \/ n > Len(b) THEN -1 ELSE Walk_(b, o + 12 + n, ids)
FindChunk(b, ids) == LET h == ReadHeader(b) IN IF h.st # "ok" THEN -1 ELSE Walk_(b, h.pos, ids)

\* Do the parts fit together?
Fits(e) == /\ Len(e.vocab) = 1 /\ Len(e.storage) = 1
           /\ U64(NRows(e.storage[1])) = UpperBound(e.vocab[1])
           /\ e.norms = <<>> \/ Len(e.norms[1]) = Len(e.vocab[1].words)
=============================================================================
