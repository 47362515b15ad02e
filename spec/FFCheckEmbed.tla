--------------------------- MODULE FFCheckEmbed -----------------------------
(* Clauses of C10 (lookup), C13 (similarity), C14 (analogy) and C17          *)
(* (conversion) on recorded events.                                          *)
EXTENDS FFEmbed, FFTraceBase, FFCheckFormat

\* r: a recorded vector; a: Answer
VecIs(e, r, a) ==
  CASE a.t = "row"  -> r.t = "vec" /\ RowSame(r.v, Row(Sto(e), a.i))
    [] a.t = "sum"  -> r.t = "vec" /\ UnitClose(r.v, a.v)
    [] OTHER        -> r.t = "none"
NormIs(e, bit, a) ==
  IF a.t = "row" THEN bit = e.norms[1][a.i] ELSE LengthClose(FShift(bit, -Scale(e)), SqSum(a.v))
PairIs(e, r, a) ==
  IF a.t = "none" THEN r.t = "none"
  ELSE r.t = "pair" /\ VecIs(e, [t |-> "vec", v |-> r.v], a) /\ NormIs(e, r.n, a)

\* r: an exception of class `name`
IsA(r, name) == r.t = "exc" /\ name \in Elems(r.mro)

\* ---- C10 ----------------------------------------------------------------
\* buffers start out as `fill`; dflt, dnorm: the given default
LookFails(e, q) ==
  LET a == Answer(e, q.w)
      none == a.t = "none"
      D == [t |-> "vec", v |-> q.dflt]
      ve(r) == VecIs(e, r, a)
      buf(o) == [t |-> "vec", v |-> o.buf]
      pd(r) == r.t = "pair" /\ r.v = q.dflt /\ r.n = q.dnorm
      TE(r) == IsA(r, "TypeError")
  IN Chk("subscript", IF none THEN IsA(q.get, "KeyError") ELSE ve(q.get))
     \cup Chk("membership", q.isin.t = "bool" /\ q.isin.v = (PosOf(Voc(e).words, q.w) > 0))
     \cup Chk("embedding", ve(q.emb))
     \cup Chk("embedding with default", IF none THEN q.embd = D ELSE ve(q.embd))
     \cup Chk("embedding into buffer",
              IF none THEN q.out.res.t = "none" /\ q.out.buf = q.fill
              ELSE q.out.same /\ ve(q.out.res) /\ ve(buf(q.out)))
     \cup Chk("default into buffer",
              IF none THEN q.outd.same /\ q.outd.res = D /\ q.outd.buf = q.dflt
              ELSE q.outd.same /\ ve(q.outd.res) /\ ve(buf(q.outd)))
     \cup (IF e.norms = <<>>
           THEN Chk("no norms is a TypeError", TE(q.wn) /\ TE(q.wnd) /\ TE(q.wnout.res) /\ TE(q.wnoutd.res))
                \cup Chk("buffer untouched by the error", q.wnout.buf = q.fill /\ q.wnoutd.buf = q.fill)
           ELSE Chk("embedding with norm", PairIs(e, q.wn, a))
                \cup Chk("embedding with norm and default", IF none THEN pd(q.wnd) ELSE PairIs(e, q.wnd, a))
                \cup Chk("with norm into buffer",
                         IF none THEN q.wnout.res.t = "none" /\ q.wnout.buf = q.fill
                         ELSE q.wnout.same /\ PairIs(e, q.wnout.res, a) /\ ve(buf(q.wnout)))
                \cup Chk("default with norm into buffer",
                         IF none THEN q.wnoutd.same /\ pd(q.wnoutd.res) /\ q.wnoutd.buf = q.dflt
                         ELSE q.wnoutd.same /\ PairIs(e, q.wnoutd.res, a) /\ ve(buf(q.wnoutd))))

\* {op, e, q: [..], iter: [{w, v, n: [] | [norm]}]}
C10Event(e) ==
  Each(e.q, LAMBDA q : LookFails(e.e, q))
  \cup Chk("iteration",
       /\ Len(e.iter) = NWords(e.e)
       /\ \A i \in 1..Len(e.iter) :
            /\ e.iter[i].w = Voc(e.e).words[i]
            /\ RowSame(e.iter[i].v, Row(Sto(e.e), i))
            /\ e.iter[i].n = IF e.e.norms = <<>> THEN <<>> ELSE <<e.e.norms[1][i]>>)

\* ---- C13 ----------------------------------------------------------------
\* a ranking by the direction d (integers); the query is d itself, or d / |d|;
\* similarities are reported times 2^sc
Ranked(e, res, k, skip, d, unit, sc) ==
  LET n2 == SqSum(d)
      key == Tup([i \in 1..NWords(e) |-> DotI(e, i, d)])
  IN RankFails(e, res, k, skip, LAMBDA i : key[i], 0,
               LAMBDA i, b : IF unit THEN ScaledClose(FShift(b, -sc), key[i], n2) ELSE FSame(FShift(b, -sc), FOfInt(key[i])))

\* a: the answer to the lookup of the query word
WordSimFails(e, a, q) ==
  IF a.t = "none" THEN Chk("word without embedding gives None", q.res.t = "none")
  ELSE IF q.res.t # "sims" THEN {"no ranking"}
  ELSE IF a.t = "row" THEN Ranked(e, q.res.v, q.k, {q.w}, IntRow(e, a.i), FALSE, 2 * Scale(e))
  ELSE Ranked(e, q.res.v, q.k, {q.w}, a.v, TRUE, Scale(e))
VecSimFails(e, q) ==
  IF q.res.t # "sims" THEN {"no ranking"}
  ELSE Ranked(e, q.res.v, q.k, Elems(q.skip), q.vec, FALSE, Scale(e))
SimFails(e, q) ==
  IF q.kind = "word" THEN WordSimFails(e, Answer(e, q.w), q) ELSE VecSimFails(e, q)

\* {op, e, q: [{kind, w | vec, skip, k, res}]}
C13Event(e) == Each(e.q, LAMBDA q : Pre(q.kind, SimFails(e.e, q)))

\* ---- C14 ----------------------------------------------------------------
\* one of the three vectors with 14 fractional bits
Fix14(e, a) == IF a.t = "row" THEN Tup([k \in 1..Sto(e).cols |-> ONE14 * IntRow(e, a.i)[k]]) ELSE Unit14(a.v)
L1(v) == FoldLeft(LAMBDA acc, x : acc + Abs_(x), 0, v)
\* a, b, c: the answers to the lookups of the three words
AnaFailsWith(e, a, b, c, q) ==
  LET skip == IF q.skip = <<>> THEN {q.a, q.b, q.c} ELSE Elems(q.skip[1])
      some == "none" \in {a.t, b.t, c.t}
      exact == {a.t, b.t, c.t} = {"row"}
      I(x) == IntRow(e, x.i)
      F(x) == Fix14(e, x)
      rows == Tup([i \in 1..NWords(e) |-> IntRow(e, i)])
  IN IF some THEN Chk("missing embedding gives None", q.res.t = "none")
     ELSE IF q.res.t # "sims" THEN {"no ranking"}
     ELSE IF exact THEN Ranked(e, q.res.v, q.k, skip, VAdd(VSub(I(b), I(a)), I(c)), TRUE, Scale(e))
     ELSE LET d == Tup(VAdd(VSub(F(b), F(a)), F(c)))
              d10 == Tup([k \in 1..Len(d) |-> d[k] \div 16])
              n2 == SqSum(d10)
              key == Tup([i \in 1..NWords(e) |-> Dot(rows[i], d)])
              wide == IF rows = <<>> THEN 0 ELSE Max({L1(rows[i]) : i \in 1..Len(rows)})
          IN RankFails(e, q.res.v, q.k, skip, LAMBDA i : key[i], 8 * wide,
                       LAMBDA i, bit : n2 < 262144 \/ Near(FixQ(bit, 10), Scaled10(Dot(rows[i], d10), n2), 96))

AnaFails(e, q) == AnaFailsWith(e, Answer(e, q.a), Answer(e, q.b), Answer(e, q.c), q)

\* {op, e, q: [{a, b, c, k, skip: [] | [[words]], res}]}
C14Event(e) == Each(e.q, LAMBDA q : AnaFails(e.e, q))

\* ---- C17 ----------------------------------------------------------------
\* {op, e, res, loaded: [res..], q: [{w, before, after}]}
C17Event(e) ==
  IF Voc(e.e).kind \notin {"bucket", "fasttext"}
  THEN Chk("other vocabularies are a TypeError", IsA(e.res, "TypeError"))
  ELSE IF e.res.t # "val" THEN {"conversion fails"}
  ELSE ExplicitFails(e.res.v, e.e)
       \cup UNION {IF e.loaded[k].t # "val" THEN {"converted embeddings cannot be written and loaded"}
                   ELSE Chk("written and loaded",
                            /\ e.loaded[k].v.vocab = e.res.v.vocab
                            /\ e.loaded[k].v.storage = e.res.v.storage
                            /\ e.loaded[k].v.norms = e.res.v.norms) : k \in 1..Len(e.loaded)}
       \cup Each(e.q, LAMBDA q : Chk("before", VecIs(e.e, q.before, Answer(e.e, q.w)))
                                 \cup Chk("after", VecIs(e.e, q.after, ExplicitAnswer(e.e, q.w))))
=============================================================================
