----------------------------- MODULE FFCheckCli ------------------------------
(* Clauses of C22 (command-line tools) on recorded runs. A run: exit status, *)
(* what was in the output file before and after (<<-1>>: no file), what was  *)
(* printed. e: <<>> or <<embeddings>>: what the input file holds, where the  *)
(* specification knows it exactly. lib: what the library gives.              *)
EXTENDS FFCheckCompat

\* ---- ffp-convert: {from, to, status, before, after, lib: bytes | exc, e} ----
ConvertFails(r) ==
  IF r.lib.t # "bytes" THEN Chk("library refuses, tool succeeds", r.status # 0)
  ELSE Chk("status", r.status = 0)
       \cup Chk("file differs from what the library writes", r.after = r.lib.v)
       \cup (IF r.e = <<>> THEN {}
             ELSE LET e == r.e[1]
                      ok == \A i \in 1..NWords(e) : UnnormOk(e, i)
                  IN CASE r.to = "finalfusion" -> LayoutFails(r.after, [e EXCEPT !.meta = IF e.meta = <<>> THEN <<>> ELSE <<MetaBytes(r.after, Len(ChunksOf(e)))>>])
                       [] r.to = "word2vec" /\ ok -> W2VFails(r.after, e)
                       [] r.to \in {"text", "textdims"} /\ ok -> TextFails(r.after, e, <<32>>, r.to = "textdims")
                       [] OTHER -> {})

\* ---- ffp-bucket-to-explicit: {status, before, after, res, lib, e} ------------
ToExplicitFails(r) ==
  IF r.lib.t # "val" THEN Chk("library refuses, tool succeeds", r.status # 0)
  ELSE Chk("status", r.status = 0)
       \cup (IF r.res.t # "val" THEN {"output cannot be loaded"}
             ELSE Chk("differs from what the library gives", r.res.v = r.lib.v)
                  \cup (IF r.e = <<>> THEN {} ELSE ExplicitFails(r.res.v, r.e[1])))

\* ---- ffp-select: {lines, ignore, status, before, after, res, lib: [{w, r}], e,
\* had, has: the input's metadata and what the output records of it}
SelectFails(r) ==
  LET want == Elems(r.lines)
      ans(w) == LET k == SelectInSeq(r.lib, LAMBDA x : x.w = w) IN r.lib[k].r
      no == {w \in want : ans(w).t = "none"}
      left == want \ no
  IN (IF r.e = <<>> THEN {}
      ELSE Chk("library lookup", \A w \in want : VecIs(r.e[1], ans(w), Answer(r.e[1], w))))
     \cup (IF no # {} /\ ~r.ignore
           THEN Chk("unrepresentable word, status 0", r.status # 0)
                \cup Chk("unrepresentable word, output written", r.after = r.before)
           ELSE Chk("status", r.status = 0)
                \cup (IF r.res.t # "val" THEN {"output cannot be loaded"}
                      ELSE LET x == r.res.v
                               ws == x.vocab[1].words
                           IN Chk("words", x.vocab[1].kind = "simple" /\ Distinct(ws) /\ Elems(ws) = left)
                              \cup Chk("input's metadata not kept", r.has = r.had)
                              \cup (IF Elems(ws) # left \/ x.storage[1].kind # "nd" \/ x.storage[1].shape # <<Len(ws), r.cols>>
                                    THEN {"matrix"}
                                    ELSE Chk("vectors", \A i \in 1..Len(ws) : RowSame(x.storage[1].rows[i], ans(ws[i]).v)))))

\* ---- ffp-similar, ffp-analogy ------------------------------------------------
\* {status, k, q: [query with lib], lines: [[word, bits]], errs: [line]}
SubStr(s, t) == \E o \in 0..(Len(t) - Len(s)) : SubSeq(t, o + 1, o + Len(s)) = s
Told(errs, ws) == \E j \in 1..Len(errs) : \A k \in 1..Len(ws) : SubStr(ws[k], errs[j])
\* queries and printed lines side by side: part(query, printed answer)
AskFails(r, part(_, _)) ==
  LET step(acc, q) ==      \* acc: [o, fails]
        IF q.lib.t = "none"
        THEN [acc EXCEPT !.fails = @ \cup Chk("no report of a query without embedding", Told(r.errs, q.ws))
                                    \cup part(q, [t |-> "none"])]
        ELSE LET n == Len(q.lib.v) IN
             IF acc.o + n > Len(r.lines) THEN [acc EXCEPT !.fails = @ \cup {"printed lines missing"}]
             ELSE LET got == SubSeq(r.lines, acc.o + 1, acc.o + n) IN
                  [o |-> acc.o + n,
                   fails |-> acc.fails
                     \cup Chk("printed answer differs from the library's",
                              \A j \in 1..n : got[j][1] = q.lib.v[j][1] /\ FSame(got[j][2], q.lib.v[j][2]))
                     \cup part(q, [t |-> "sims", v |-> got])]
      w == FoldLeft(step, [o |-> 0, fails |-> {}], r.q)
  IN w.fails \cup Chk("printed lines left over", w.o = Len(r.lines))
\* where the specification knows the embeddings it ranks by itself
SimilarFails(r) ==
  Chk("status", r.status = 0)
  \cup AskFails(r, LAMBDA q, got :
         IF r.e = <<>> THEN {} ELSE SimFails(r.e[1], [kind |-> "word", w |-> q.ws[1], k |-> r.k, res |-> got]))
AnalogyFails(r) ==
  LET inc == Elems(r.inc)
      skip(q) == SelectSeq(q.ws, LAMBDA w : \E j \in 1..3 : q.ws[j] = w /\ <<"a", "b", "c">>[j] \notin inc)
  IN Chk("status", r.status = 0)
     \cup AskFails(r, LAMBDA q, got :
         IF r.e = <<>> THEN {}
         ELSE AnaFails(r.e[1], [a |-> q.ws[1], b |-> q.ws[2], c |-> q.ws[3], k |-> r.k, skip |-> <<skip(q)>>, res |-> got]))

C22Event(e) ==
  Pre(e.tool, CASE e.tool = "convert"  -> ConvertFails(e)
                [] e.tool = "explicit" -> ToExplicitFails(e)
                [] e.tool = "select"   -> SelectFails(e)
                [] e.tool = "similar"  -> SimilarFails(e)
                [] e.tool = "analogy"  -> AnalogyFails(e))
=============================================================================
