--------------------------- MODULE FFCheckCompat ----------------------------
(* Clauses of C18 (word2vec), C19 (text), C20 (fastText) and C21 (malformed  *)
(* UTF-8) on recorded events.                                                *)
EXTENDS FFCompat, FFTraceBase, FFCheckFormat, FFCheckEmbed

\* Squares of components neither overflow nor vanish: |x| = 0 or about 1e-15..1e15.
Moderate(v) == \A k \in 1..Len(v) : FIsZero(v[k]) \/ FExp(v[k]) \in 77..177

\* Loaded embeddings x (projection): these words, and vectors normalized.
WordsVecsFails(x, words, vecs, cols) ==
  LET st == x.storage[1] IN
  Chk("words", x.vocab[1].kind = "simple" /\ x.vocab[1] = [kind |-> "simple", words |-> words])
  \cup (IF st.kind # "nd" \/ st.shape # <<Len(words), cols>> \/ x.norms = <<>> THEN {"matrix shape or norms"}
        ELSE IF Len(x.norms[1]) # Len(words) THEN {"number of norms"}
        ELSE Chk("vectors and norms", \A i \in 1..Len(words) : ~Moderate(vecs[i]) \/ Normalized(st.rows[i], x.norms[1][i], vecs[i])))
ResFails(r, words, vecs, cols) ==
  IF r.t # "val" THEN {"file refused"} ELSE WordsVecsFails(r.v, words, vecs, cols)

Plain(w) == \A k \in 1..Len(w) : w[k] \notin AsciiSpace
\* the un-normalized vectors of e
Vecs(e) == Tup([i \in 1..NWords(e) |-> Unnorm(e, i)])
\* same words, and vector times norm
TripFails(r, e) ==
  IF ~(\A i \in 1..NWords(e) : Plain(Voc(e).words[i]) /\ UnnormOk(e, i)) THEN {}
  ELSE ResFails(r, Voc(e).words, Vecs(e), Sto(e).cols)

\* ---- C18 ----------------------------------------------------------------
\* act "write": {e, b, res}            writing e gave b, loading b gave res
\* act "load":  {words, vecs, cols, nl, b, res}
\* act "cuts":  {words, vecs, cols, vals, cuts: [{n, res}]}
C18Event(e) ==
  CASE e.act = "write" ->
         (IF \A i \in 1..NWords(e.e) : UnnormOk(e.e, i) THEN Pre("written", W2VFails(e.b, e.e)) ELSE {})
         \cup (IF e.trip THEN Pre("reloaded", TripFails(e.res, e.e)) ELSE {})
    [] e.act = "load" ->
         Chk("HARNESS file", e.b = W2VEncode(Tup([i \in 1..Len(e.words) |-> Utf8(e.words[i])]), e.vecs, e.cols, e.nl))
         \cup Pre("loaded", ResFails(e.res, e.words, e.vecs, e.cols))
    [] e.act = "cuts" ->
         UNION {LET c == e.cuts[k] IN
                IF Raised(c.res) THEN {}
                ELSE Pre("cut at " \o ToString(c.n) \o " of " \o ToString(e.len),
                         IF c.res.t # "ref" THEN {"odd object"}
                         ELSE WordsVecsFails(e.vals[c.res.v], e.words, e.vecs, e.cols)) : k \in 1..Len(e.cuts)}

\* ---- C19 ----------------------------------------------------------------
\* act "write": {e, b, dims, sep, trip, res}
\* act "load":  {lines: [[word, tokens]], vecs, cols, sep, header: [] | [rows, cols], b, res}
\*              words as code points
C19Event(e) ==
  CASE e.act = "write" ->
         (IF \A i \in 1..NWords(e.e) : UnnormOk(e.e, i) THEN Pre("written", TextFails(e.b, e.e, e.sep, e.dims)) ELSE {})
         \cup (IF e.trip THEN Pre("reloaded", TripFails(e.res, e.e)) ELSE {})
    [] e.act = "load" ->
         LET n == Len(e.lines)
             words == Tup([i \in 1..n |-> e.lines[i][1]])
             d == IF e.header = <<>> THEN Len(e.lines[1][2]) ELSE e.header[2]
             bytes == Tup([i \in 1..n |-> <<Utf8(words[i]), e.lines[i][2]>>])
             bad == \/ \E i \in 1..n : Len(e.lines[i][2]) # d
                    \/ e.header # <<>> /\ n < e.header[1]
         IN Chk("HARNESS file", e.b = TextEncode(bytes, e.sep, e.header))
            \cup (IF bad THEN Chk("odd line or missing lines accepted", Raised(e.res))
                  ELSE Chk("HARNESS numerals", \A i \in 1..n : \A k \in 1..d : RoundsTo(e.lines[i][2][k], e.vecs[i][k]))
                       \cup Pre("loaded", ResFails(e.res, words, e.vecs, d)))

\* ---- C20 ----------------------------------------------------------------
\* metadata as recorded: {ints: [10 values], loss, model, thr: bytes of the double}
MetaFails(m, p) ==
  Chk("metadata", /\ m.ints = Tup([k \in 1..10 |-> p.cfg[IF k <= 6 THEN k ELSE k + 2]])
                  /\ m.loss = Losses[p.cfg[7]] /\ m.model = Models[p.cfg[8]] /\ m.thr = p.thr)
\* the settings of written models that do not come from the embeddings, as documented
FTDocumented(q) == /\ \A k \in {2, 4, 5, 12} : q.cfg[k] = 0
                   /\ q.cfg[6] = 1 /\ q.cfg[7] = 1 /\ q.cfg[8] = 1
                   /\ \A k \in 1..8 : q.thr[k] = 0
FTWordsOk(p) == \A i \in 1..Len(p.words) : Utf8Decode(p.words[i]).ok
FTWords(p) == Tup([i \in 1..Len(p.words) |-> Utf8Decode(p.words[i]).word])
\* act "load":  {b, res, meta: [] | [m]}            any bytes
\* act "trip":  {b, res: loaded, w: bytes | exc, again: res}   load, write, load
\* act "write": {e, res: bytes | exc, again, before: bytes, after: bytes}
\* act "cuts":  {b, cuts: [{n, res}]}
C20Event(e) ==
  CASE e.act = "load" ->
         LET p == FTParse(e.b) IN
         CASE p.st = "bad"  -> Chk("malformed model accepted: " \o e.what, Raised(e.res))
           [] p.st = "open" -> {}
           [] OTHER -> IF ~FTWordsOk(p) THEN Chk("malformed text accepted", Raised(e.res))
                       ELSE IF ~Distinct(FTWords(p)) THEN Chk("duplicate words accepted", Raised(e.res))
                       ELSE IF e.res.t # "val" THEN {"model refused: " \o e.what}
                       ELSE FTLoadFails(e.res.v, FTWords(p), p.cfg, p.rows)
                            \cup MetaFails(e.meta[1], p)
    [] e.act = "trip" ->
         LET p == FTParse(e.b) IN
         IF e.res.t # "val" THEN {"model refused"}
         ELSE IF e.w.t # "bytes" THEN {"loaded model cannot be written"}
         ELSE IF e.again.t # "val" THEN {"written model cannot be loaded"}
         ELSE LET q == FTParse(e.w.v) IN
              IF q.st # "ok" THEN {"written file is not a fastText model"}
              ELSE Chk("words", q.words = p.words)
                   \cup Chk("settings", q.cfg[1] = p.cfg[1] /\ q.cfg[9] = p.cfg[9] /\ q.cfg[10] = p.cfg[10] /\ q.cfg[11] = p.cfg[11])
                   \cup Chk("documented settings", FTDocumented(q))
                   \cup Pre("loaded again", FTLoadFails(e.again.v, FTWords(p), p.cfg, p.rows))
                   \cup (IF Len(q.rows) # Len(p.rows) \/ q.cols # p.cols THEN {"matrix shape"}
                         ELSE Chk("restored bucket rows", \A i \in (Len(p.words) + 1)..Len(p.rows) : q.rows[i] = p.rows[i])
                              \cup Chk("restored word rows", \A i \in 1..Len(p.words) : \A k \in 1..p.cols :
                                     FFinite(q.rows[i][k]) /\ Near(FixQ(q.rows[i][k], 10), 1024 * IntOf(p.rows[i][k]), 8)))
    [] e.act = "write" ->
         IF Voc(e.e).kind # "fasttext"
         THEN Chk("other vocabulary refused", Raised(e.res))
              \cup Chk("destination untouched", e.after = e.before)
         ELSE IF e.res.t # "bytes" THEN {"cannot be written"}
         ELSE Pre("written", FTWriteFails(e.res.v, e.e))
              \cup (IF e.again.t # "val" THEN {"written model cannot be loaded"}
                    ELSE Pre("reloaded", FTLoadFails(e.again.v, Voc(e.e).words,
                           <<Sto(e.e).cols, 0, 0, 0, 0, 0, 0, 0, U64Nat(Voc(e.e).buckets), Voc(e.e).lo, Voc(e.e).hi>>, FTModel(e.e))))
    [] e.act = "cuts" ->
         LET p == FTParse(e.b) IN
         UNION {LET c == e.cuts[k] IN
                IF c.n >= p.end THEN {} ELSE Chk("truncated model accepted (cut at " \o ToString(c.n) \o ")", Raised(c.res))
                : k \in 1..Len(e.cuts)}

\* ---- C21 ----------------------------------------------------------------
\* {fmt: "word2vec" | "text" | "textdims" | "fasttext", words: [bytes], vecs, cols, strict, lossy, cfg}
\* vecs: for fastText the rows of the file
C21Event(e) ==
  LET dec == Tup([i \in 1..Len(e.words) |-> Utf8Decode(e.words[i])])
      words == Tup([i \in 1..Len(dec) |-> dec[i].word])
      valid == \A i \in 1..Len(dec) : dec[i].ok
      fails(r) == IF e.fmt = "fasttext"
                  THEN IF r.t # "val" THEN {"file refused"} ELSE FTLoadFails(r.v, words, e.cfg, e.vecs)
                  ELSE ResFails(r, words, e.vecs, e.cols)
  IN Pre(e.fmt,
     IF ~Distinct(words) THEN {}
     ELSE Pre("lossy", fails(e.lossy))
          \cup (IF valid THEN Pre("strict", fails(e.strict)) \cup Chk("same with and without the option", e.strict = e.lossy)
                ELSE Chk("strict loading raises UnicodeDecodeError", IsA(e.strict, "UnicodeDecodeError"))))
=============================================================================
