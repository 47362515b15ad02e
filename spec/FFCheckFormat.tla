--------------------------- MODULE FFCheckFormat ----------------------------
(* Clauses of C01 (round trip), C02 (layout), C03 (component loaders),       *)
(* C04 (truncation) and C05 (malformed and foreign files) on recorded events.*)
EXTENDS FFFormat, FFTraceBase

\* ---- projections of live objects against values -------------------------

SameVocab(s, v) == s.kind = v.kind /\ s = v
StorageFails(s, x) ==
  IF s.kind # x.kind THEN {"storage kind"}
  ELSE Chk("shape", s.shape = <<NRows(x), x.cols>>)
       \cup (IF s.kind = "nd" THEN Chk("matrix", s.rows = x.rows)
             ELSE Chk("quantizer", s.sub = x.sub /\ s.proj = x.proj /\ s.qlen = Len(x.sub)
                                   /\ s.ncent = x.ncent /\ s.rlen = x.cols)
                  \cup Chk("number of vectors", Len(s.rows) = NRows(x))
                  \cup (IF Len(s.rows) # NRows(x) \/ ~PQExact(x) THEN {}
                        ELSE Chk("vectors", \A i \in 1..NRows(x) : RowSame(s.rows[i], PQRow(x, i)))))

\* s: projection of whole embeddings, e: value
ValueFails(s, e) ==
       Chk("vocabulary", SameVocab(s.vocab[1], e.vocab[1]))
  \cup StorageFails(s.storage[1], e.storage[1])
  \cup Chk("norms", s.norms = e.norms)
  \cup Chk("metadata", s.meta = e.meta)
  \cup Chk("size", s.nwords = Len(e.vocab[1].words) /\ s.dims = e.storage[1].cols)
  \cup Chk("chunk list", LET o == ChunksOf(e) IN s.chunks = Tup([k \in 1..Len(o) |-> o[k][1]]))

LoadedFails(r, e) == IF r.t # "val" THEN {"valid file refused"} ELSE ValueFails(r.v, e)

\* ---- component loaders --------------------------------------------------

VKinds(name) == CASE name = "vocab"          -> {"simple", "bucket", "fasttext", "explicit"}
                  [] name = "simple_vocab"   -> {"simple"}
                  [] name = "bucket_vocab"   -> {"bucket"}
                  [] name = "fasttext_vocab" -> {"fasttext"}
                  [] name = "explicit_vocab" -> {"explicit"}
                  [] OTHER                   -> {}
SKinds(name) == CASE name = "storage"   -> {"nd", "pq"}
                  [] name = "ndarray"   -> {"nd"}
                  [] name = "quantized" -> {"pq"}
                  [] OTHER              -> {}
\* Does value e have the component that loader `name` looks for?
HasComp(e, name) ==
  CASE name = "norms"    -> e.norms # <<>>
    [] name = "metadata" -> e.meta # <<>>
    [] OTHER -> \/ e.vocab # <<>> /\ e.vocab[1].kind \in VKinds(name)
                \/ e.storage # <<>> /\ e.storage[1].kind \in SKinds(name)
CompFails(v, e, name) ==
  CASE name = "norms"     -> Chk("norms", v = e.norms[1])
    [] name = "metadata"  -> Chk("metadata", v = e.meta[1])
    [] SKinds(name) # {}  -> StorageFails(v, e.storage[1])
    [] OTHER              -> Chk("vocabulary", SameVocab(v, e.vocab[1]))

IsVE(r) == r.t = "exc" /\ "ValueError" \in Elems(r.mro)
Pre(p, fs) == {p \o ": " \o f : f \in fs}

\* {op, e, b, loads: [{mmap, res, again}], comps: [{name, mmap, res, only}]}
C01Event(e) ==
  UNION {LET l == e.loads[k] IN
         Pre(IF l.mmap THEN "mmap" ELSE "read",
             LoadedFails(l.res, e.e)
             \cup Chk("rewritten file", l.again.t = "bytes" /\ l.again.v = e.b)) : k \in 1..Len(e.loads)}
  \cup UNION {LET c == e.comps[k] IN
              Pre(c.name, IF c.res.t # "val" THEN {"valid component file refused"}
                          ELSE CompFails(c.res.v, e.e, c.name)) : k \in 1..Len(e.comps)}

\* {op, e, only, b, meta: [] | [canonical text]}; only: which component was written, or "all"
OnlyPart(e, only) ==
  IF only = "all" THEN e
  ELSE [meta    |-> IF only = "meta" THEN e.meta ELSE <<>>,
        vocab   |-> IF only = "vocab" THEN e.vocab ELSE <<>>,
        storage |-> IF only = "storage" THEN e.storage ELSE <<>>,
        norms   |-> IF only = "norms" THEN e.norms ELSE <<>>]
\* bytes of the metadata chunk, by its own length field
MetaBytes(b, n) ==
  LET o == 12 + 4 * n IN
  IF ~Has(b, o, 12) THEN <<>>
  ELSE LET k == NatAt(b, o + 4, 8) IN IF k < 0 \/ k > Len(b) - o - 12 THEN <<>> ELSE Slice(b, o + 12, k)
C02Event(e) ==
  LET v0 == OnlyPart(e.e, e.only)
      n == Len(ChunksOf(v0))
      v == [v0 EXCEPT !.meta = IF v0.meta = <<>> THEN <<>> ELSE <<MetaBytes(e.b, n)>>]
  IN Pre(e.only, LayoutFails(e.b, v) \cup Chk("metadata text", e.meta = v0.meta))

\* {op, e, b, order, mb, made, loads: [{name, mmap, res}], full}
\* made: the harness encoded the file itself with this chunk order and metadata text mb
C03Event(e) ==
       (IF ~e.made THEN {}
        ELSE Chk("HARNESS encoder", Matches(e.b, EncodeIn([e.e EXCEPT !.meta = e.mb], e.order))))
  \cup UNION {LET l == e.loads[k] IN
         Pre(l.name \o (IF l.mmap THEN " (mmap)" ELSE ""),
             IF HasComp(e.e, l.name)
             THEN IF l.res.t # "val" THEN {"component not found"} ELSE CompFails(l.res.v, e.e, l.name)
             ELSE Chk("absent component is a ValueError", IsVE(l.res))) : k \in 1..Len(e.loads)}
  \cup Each(e.full, LAMBDA r : LoadedFails(r, e.e))

\* {op, e, len, vals, cuts: [{n, full: [res..], comps: [{name, res}]}]}
\* results are exceptions or references into vals
C04Event(e) ==
  UNION {LET c == e.cuts[k] IN
         IF c.n >= e.len THEN {}
         ELSE Chk("truncated file accepted (cut at " \o ToString(c.n) \o ")",
                  \A j \in 1..Len(c.full) : Raised(c.full[j]))
              \cup UNION {LET r == c.comps[j] IN
                     IF Raised(r.res) THEN {}
                     ELSE IF ~HasComp(e.e, r.name) THEN {r.name \o ": absent component returned"}
                     ELSE IF r.res.t # "ref" THEN {r.name \o ": odd object"}
                     ELSE Pre(r.name \o " (cut)", CompFails(e.vals[r.res.v], e.e, r.name)) : j \in 1..Len(c.comps)}
         : k \in 1..Len(e.cuts)}

\* {op, b, metas: [[bytes, canonical]], res: [..], what}
\* b is any byte string
C05Event(e) ==
  LET p == Parse(e.b) IN
  CASE p.st = "bad" -> Chk("malformed file accepted: " \o e.what, \A k \in 1..Len(e.res) : Raised(e.res[k]))
    [] p.st = "open" -> {}
    [] OTHER ->
       LET known == {j \in 1..Len(e.metas) : p.val.meta # <<>> /\ e.metas[j][1] = p.val.meta[1]}
           val == IF p.val.meta = <<>> THEN p.val
                  ELSE [p.val EXCEPT !.meta = IF known = {} THEN <<"?">> ELSE <<e.metas[Min(known)][2]>>]
       IN IF p.val.meta # <<>> /\ known = {} THEN {}
          ELSE UNION {Pre(e.what, LoadedFails(e.res[k], val)) : k \in 1..Len(e.res)}
=============================================================================
