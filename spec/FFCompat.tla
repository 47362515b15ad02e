------------------------------ MODULE FFCompat -------------------------------
(* The formats of other tools: word2vec binary, text (with and without       *)
(* dimensions) and fastText models.                                          *)
EXTENDS FFEmbed, FFDecimal

\* ---- un-normalized vectors ------------------------------------------------

\* vector i of e scaled by its norm
Unnorm(e, i) ==
  LET v == Row(Sto(e), i)
  IN IF e.norms = <<>> THEN v ELSE Tup([k \in 1..Len(v) |-> FMul(v[k], e.norms[1][i])])
UnnormOk(e, i) ==
  e.norms = <<>> \/ \A k \in 1..Sto(e).cols : FMulOk(Row(Sto(e), i)[k], e.norms[1][i])

\* u with norm n is the normalized form of the (finite, moderate) vector v
Normalized(u, n, v) ==
  IF \A k \in 1..Len(v) : FIsZero(v[k])
  THEN FIsZero(n) /\ Len(u) = Len(v) /\ \A k \in 1..Len(u) : FIsZero(u[k])
  ELSE /\ Len(u) = Len(v) /\ FFinite(n) /\ ~FNeg(n)
       /\ \A k \in 1..Len(u) : FFinite(u[k]) /\ FMulOk(u[k], n) /\ Ulps(FMul(u[k], n), v[k]) <= 4
       /\ Near(SqSum(Tup([k \in 1..Len(u) |-> FixQ(u[k], 14)])), ONE14 * ONE14, 131072)

At(b, o, s) == Has(b, o, Len(s)) /\ Slice(b, o, Len(s)) = s

\* offset of the next byte c from o on, -1 when there is none
RECURSIVE NextPos(_, _, _)
NextPos(b, o, c) == IF o >= Len(b) THEN -1 ELSE IF b[o + 1] = c THEN o ELSE NextPos(b, o + 1, c)

\* ---- word2vec ---------------------------------------------------------------

DimLine(n, d) == Digits(n) \o <<32>> \o Digits(d) \o <<10>>

RECURSIVE W2VRows_(_, _, _, _)
W2VRows_(b, o, e, i) ==
  IF i > NWords(e) THEN Chk("nothing after the last vector", o = Len(b))
  ELSE LET w == Utf8(Voc(e).words[i]) \o <<32>>
           d == Sto(e).cols
           p == o + Len(w)
           v == Unnorm(e, i)
       IN IF ~At(b, o, w) THEN {"word"}
          ELSE IF ~Has(b, p, 4 * d + 1) THEN {"vector missing"}
          ELSE IF ~(\A k \in 1..d : FSame(I32At(b, p + 4 * (k - 1)), v[k])) THEN {"vector"}
          ELSE IF b[p + 4 * d + 1] # 10 THEN {"newline"}
          ELSE W2VRows_(b, p + 4 * d + 1, e, i + 1)
W2VFails(b, e) ==
  LET h == DimLine(NWords(e), Sto(e).cols)
  IN IF ~At(b, 0, h) THEN {"first line"} ELSE W2VRows_(b, Len(h), e, 1)

\* a file: words (bytes) and vectors, with or without newlines
W2VEncode(words, vecs, d, nl) ==
  DimLine(Len(words), d)
  \o FoldLeft(LAMBDA acc, i : acc \o words[i] \o <<32>> \o Floats(vecs[i]) \o (IF nl THEN <<10>> ELSE <<>>),
              <<>>, Tup([i \in 1..Len(words) |-> i]))

\* ---- text -------------------------------------------------------------------

\* end of the line at o (offset of the newline), -1 when there is none
LineEnd(b, o) == NextPos(b, o, 10)

RECURSIVE TextRows_(_, _, _, _, _)
TextRows_(b, o, e, sep, i) ==
  IF i > NWords(e) THEN Chk("nothing after the last line", o = Len(b))
  ELSE LET w == Utf8(Voc(e).words[i]) \o sep
           p == o + Len(w)
       IN IF ~At(b, o, w) THEN {"word and separator"}
          ELSE LET q == LineEnd(b, p) IN
               IF q < 0 THEN {"line end"}
               ELSE LET t == SplitOn(Slice(b, p, q - p), 32)
                        v == Unnorm(e, i)
                    IN IF Len(t) # Len(v) THEN {"number of components"}
                       ELSE IF ~(\A k \in 1..Len(v) : RoundsTo(t[k], v[k])) THEN {"component"}
                       ELSE TextRows_(b, q + 1, e, sep, i + 1)
TextFails(b, e, sep, dims) ==
  LET h == IF dims THEN DimLine(NWords(e), Sto(e).cols) ELSE <<>>
  IN IF ~At(b, 0, h) THEN {"first line"} ELSE TextRows_(b, Len(h), e, sep, 1)

\* lines: sequence of <<word bytes, tokens>>; header: <<>> or <<rows, cols>>
TextEncode(lines, sep, header) ==
  (IF header = <<>> THEN <<>> ELSE DimLine(header[1], header[2]))
  \o FoldLeft(LAMBDA acc, l : acc \o l[1] \o Flat(Tup([k \in 1..Len(l[2]) |->
                   (IF k = 1 THEN sep ELSE <<32>>) \o l[2][k]])) \o <<10>>, <<>>, lines)

\* ---- fastText ---------------------------------------------------------------

FT_MAGIC == LE(793712314, 4)
Neg1 == <<255, 255, 255, 255, 255, 255, 255, 255>>

\* n entries: word bytes, NUL, 8 bytes frequency, type 0
RECURSIVE FTWords_(_, _, _, _)
FTWords_(b, o, n, acc) ==
  IF n = 0 THEN [st |-> "ok", o |-> o, w |-> acc]
  ELSE LET z == NextPos(b, o, 0) IN
       IF z < 0 THEN [st |-> "bad", o |-> o, w |-> acc]
       ELSE IF ~Has(b, z, 10) THEN [st |-> "bad", o |-> o, w |-> acc]
       ELSE IF b[z + 10] # 0 THEN [st |-> "bad", o |-> o, w |-> acc]
       ELSE FTWords_(b, z + 10, n - 1, Append(acc, Slice(b, o, z - o)))

\* [st, ..]: bad (to be refused), open (not specified) or ok with the model
FTBad == [st |-> "bad"]
FTOpen == [st |-> "open"]
FTParse(b) ==
  IF ~Has(b, 0, 8) THEN FTBad
  ELSE IF Slice(b, 0, 8) # FT_MAGIC \o LE(12, 4) THEN FTBad
  ELSE IF ~Has(b, 8, 56 + 28) THEN FTBad
  ELSE LET cfg == Tup([k \in 1..12 |-> I32At(b, 8 + 4 * (k - 1))])
           nw == I32At(b, 64)
           labels == I32At(b, 72)
           pruned == Slice(b, 84, 8)
       IN IF labels # 0 \/ pruned[8] < 128 THEN FTBad
          ELSE IF nw < 0 THEN FTOpen
          ELSE LET ws == FTWords_(b, 92, nw, <<>>)
                   o == ws.o
               IN IF ws.st = "bad" THEN FTBad
                  ELSE IF ~Has(b, o, 17) THEN FTBad
                  ELSE IF b[o + 1] # 0 THEN FTBad
                  ELSE LET rows == NatAt(b, o + 1, 8)
                           cols == NatAt(b, o + 9, 8)
                       IN IF \/ cfg[7] \notin 1..3 \/ cfg[8] \notin 1..3 \/ cfg[9] < 1
                             \/ cfg[10] < 1 \/ cfg[11] < cfg[10]
                             \/ cols # cfg[1] \/ rows # nw + cfg[9] \/ cols < 1 \/ rows > 100000 \/ cols > 4000
                          THEN FTOpen
                          ELSE IF ~Has(b, o + 17, 4 * rows * cols) THEN FTBad
                          ELSE [st |-> "ok", cfg |-> cfg, thr |-> Slice(b, 56, 8), words |-> ws.w,
                                cols |-> cols, end |-> o + 17 + 4 * rows * cols,
                                rows |-> Tup([i \in 1..rows |-> Tup([k \in 1..cols |->
                                            I32At(b, o + 17 + 4 * ((i - 1) * cols + (k - 1)))])])]

FTVocab(words, cfg) == [kind |-> "fasttext", words |-> words, lo |-> cfg[10], hi |-> cfg[11], buckets |-> U64(cfg[9])]
Losses == <<"HierarchicalSoftmax", "NegativeSampling", "Softmax">>
Models == <<"CBOW", "SkipGram", "Supervised">>

\* sum of a word's own row and its n-gram rows (integers), and their number
FTSum(v, rows, i) ==
  LET idx == SubIndices(v, v.words[i], TRUE, U64(Len(v.words)))
  IN [n |-> Len(idx) + 1,
      sum |-> FoldLeft(LAMBDA acc, j : VAdd(acc, Ints(rows[U64Nat(j) + 1])), Ints(rows[i]), idx)]
\* row a fastText file has to hold for the embeddings e, and the same for all rows
FTOwn(e, i) ==
  LET v == Voc(e)
      idx == SubIndices(v, v.words[i], TRUE, U64(Len(v.words)))
      m == IF e.norms = <<>> THEN 1 ELSE IntOf(e.norms[1][i])
      r == IntRow(e, i)
  IN VSub(Tup([k \in 1..Len(r) |-> r[k] * m * (Len(idx) + 1)]), SumRows(e, idx))
FTModel(e) ==
  LET n == NWords(e) IN
  Tup([i \in 1..NRows(Sto(e)) |-> IF i <= n THEN LET o == FTOwn(e, i) IN Tup([k \in 1..Len(o) |-> FOfInt(o[k])])
                                  ELSE Row(Sto(e), i)])
\* clauses of loaded embeddings x (projection) against words, settings and rows
FTLoadFails(x, words, cfg, rows) ==
  LET v == FTVocab(words, cfg)
      n == Len(words)
      st == x.storage[1]
      d == IF rows = <<>> THEN 0 ELSE Len(rows[1])
  IN Chk("vocabulary", x.vocab[1].kind = "fasttext" /\ x.vocab[1] = v)
     \cup (IF st.kind # "nd" \/ st.shape # <<Len(rows), cfg[1]>> THEN {"matrix shape"}
           ELSE Chk("bucket rows", \A i \in (n + 1)..Len(rows) : st.rows[i] = rows[i])
                \cup Chk("word vectors", \A i \in 1..n : UnitClose(st.rows[i], FTSum(v, rows, i).sum)))
     \cup (IF x.norms = <<>> THEN {"no norms"}
           ELSE Chk("norms", /\ Len(x.norms[1]) = n
                             /\ \A i \in 1..n : LET s == FTSum(v, rows, i)
                                                    nm == x.norms[1][i] IN
                                  FFinite(nm) /\ LengthClose(FMul(nm, FOfInt(s.n)), SqSum(s.sum))))
\* clauses of a written file against the embeddings
FTWriteFails(b, e) ==
  LET p == FTParse(b)
      v == Voc(e)
      n == NWords(e)
      m == FTModel(e)
  IN IF p.st # "ok" THEN {"not a fastText model"}
     ELSE Chk("words", p.words = Tup([i \in 1..n |-> Utf8(v.words[i])]))
          \cup Chk("settings", p.cfg[1] = Sto(e).cols /\ U64(p.cfg[9]) = v.buckets /\ p.cfg[10] = v.lo /\ p.cfg[11] = v.hi)
          \cup (IF Len(p.rows) # Len(m) \/ p.cols # Sto(e).cols THEN {"matrix shape"}
                ELSE Chk("bucket rows", \A i \in (n + 1)..Len(m) : RowSame(p.rows[i], m[i]))
                     \cup Chk("word rows", \A i \in 1..n : \A k \in 1..p.cols :
                                 FFinite(p.rows[i][k]) /\ Near(FixQ(p.rows[i][k], 10), 1024 * IntOf(m[i][k]), 8)))
=============================================================================
