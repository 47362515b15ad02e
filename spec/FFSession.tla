----------------------------- MODULE FFSession -------------------------------
(* A program's session with embeddings: construction from parts, assignment  *)
(* of norms and metadata, queries, iterators, writing and loading files and  *)
(* conversion, over several embeddings and files at once.                    *)
(*                                                                           *)
(* Parts are numbered; 0 is None. Embeddings are values [v, s, n, m, x]: the *)
(* vocabulary, storage, norms and metadata last accepted, x = 1 after the    *)
(* conversion to explicit n-grams. An operation is [act, a] with a sequence  *)
(* of numbers a; Enabled, Accepted and Effect are the session's whole        *)
(* semantics, used both to generate behaviours and to validate recorded ones.*)
EXTENDS FFBase

\* ---- the parts ----------------------------------------------------------
\* ok: of the right type. The harness builds objects with exactly these sizes.
VocPool == << [kind |-> "simple",   nw |-> 2, bound |-> 2, ok |-> TRUE],
              [kind |-> "simple",   nw |-> 3, bound |-> 3, ok |-> TRUE],
              [kind |-> "bucket",   nw |-> 2, bound |-> 4, ok |-> TRUE],
              [kind |-> "fasttext", nw |-> 1, bound |-> 4, ok |-> TRUE],
              [kind |-> "explicit", nw |-> 2, bound |-> 4, ok |-> TRUE],
              [kind |-> "fasttext", nw |-> 2, bound |-> 3, ok |-> TRUE],
              [kind |-> "wrong",    nw |-> 2, bound |-> 2, ok |-> FALSE],
              [kind |-> "bucket",   nw |-> 70, bound |-> 72, ok |-> TRUE],
              [kind |-> "simple",   nw |-> 0, bound |-> 0, ok |-> TRUE],
              [kind |-> "bucket",   nw |-> 0, bound |-> 2, ok |-> TRUE] >>
StoPool == << [kind |-> "nd", rows |-> 2, ok |-> TRUE],
              [kind |-> "nd", rows |-> 3, ok |-> TRUE],
              [kind |-> "nd", rows |-> 4, ok |-> TRUE],
              [kind |-> "pq", rows |-> 2, ok |-> TRUE],
              [kind |-> "pq", rows |-> 3, ok |-> TRUE],
              [kind |-> "pq", rows |-> 4, ok |-> TRUE],
              [kind |-> "nd", rows |-> 5, ok |-> TRUE],
              [kind |-> "wrong", rows |-> 4, ok |-> FALSE],
              [kind |-> "nd", rows |-> 72, ok |-> TRUE],
              [kind |-> "nd", rows |-> 0, ok |-> TRUE] >>
NrmPool == << [len |-> 1, ok |-> TRUE], [len |-> 2, ok |-> TRUE], [len |-> 2, ok |-> TRUE],
              [len |-> 3, ok |-> TRUE], [len |-> 4, ok |-> TRUE],
              [len |-> 2, ok |-> FALSE], [len |-> 3, ok |-> FALSE], [len |-> 70, ok |-> TRUE],
              [len |-> 0, ok |-> TRUE] >>
\* after these a large one of each, and then empty ones, left out of exhaustive enumerations
NVOC == Len(VocPool) - 3
NSTO == Len(StoPool) - 2
NNRM == Len(NrmPool) - 2
MetPool == << [ok |-> TRUE], [ok |-> TRUE], [ok |-> TRUE], [ok |-> FALSE], [ok |-> FALSE] >>

PartsFit(v, s) == /\ v # 0 /\ VocPool[v].ok
              /\ s # 0 /\ StoPool[s].ok
              /\ StoPool[s].rows = VocPool[v].bound
NormsFit(v, n) == IF n = 0 THEN TRUE ELSE NrmPool[n].ok /\ NrmPool[n].len = VocPool[v].nw
MetaFits(m) == IF m = 0 THEN TRUE ELSE MetPool[m].ok

\* ---- state --------------------------------------------------------------
\* slot: embeddings held by the program; file: what is on disk, <<>> or
\* <<[val, fmt]>>; iter: running iterations, <<>> or <<[slot, pos]>>
NSLOT == 3
NFILE == 2
NITER == 2
Formats == <<"fifu", "word2vec", "text", "textdims", "fasttext">>
Empty == [slot |-> Tup([k \in 1..NSLOT |-> <<>>]),
          file |-> Tup([k \in 1..NFILE |-> <<>>]),
          iter |-> Tup([k \in 1..NITER |-> <<>>])]

\* iterations over slot k are given up when its parts are replaced
Forget(iter, k) == Tup([j \in 1..NITER |-> IF iter[j] # <<>> /\ iter[j][1].slot = k THEN <<>> ELSE iter[j]])

Known(val) == VocPool[val.v].nw
KindOf(val) == IF val.x = 1 THEN "explicit" ELSE VocPool[val.v].kind
Chunks(val) == (IF val.m = 0 THEN <<>> ELSE <<"meta">>) \o <<KindOf(val)>>
               \o <<IF val.x = 1 THEN "nd" ELSE StoPool[val.s].kind>>
               \o (IF val.n = 0 THEN <<>> ELSE <<"norms">>)

Queries == {"look", "sim", "vsim", "ana", "isin", "voc", "slice"}

\* Can the program do this at all?
Enabled(st, op) ==
  LET a == op.a IN
  CASE op.act = "new"      -> TRUE
    [] op.act = "load"     -> st.file[a[2]] # <<>> /\ st.file[a[2]][1].fmt = "fifu"
    [] op.act = "probe"    -> st.file[a[1]] # <<>>
    [] op.act = "inext"    -> st.iter[a[1]] # <<>>
    [] op.act = "istart"   -> st.slot[a[2]] # <<>>
    [] op.act = "explicit" -> st.slot[a[2]] # <<>>
    [] OTHER               -> st.slot[a[1]] # <<>>

\* Is it accepted (or refused with an exception)?
Accepted(st, op) ==
  LET a == op.a
      val == st.slot[a[1]][1]
  IN CASE op.act = "new"      -> PartsFit(a[2], a[3]) /\ NormsFit(a[2], a[4]) /\ MetaFits(a[5])
       [] op.act = "norms"    -> NormsFit(val.v, a[2])
       [] op.act = "meta"     -> MetaFits(a[2])
       [] op.act = "explicit" -> KindOf(st.slot[a[2]][1]) \in {"bucket", "fasttext"}
       [] op.act = "write"    -> Formats[a[3]] = "fasttext" => KindOf(val) = "fasttext"
       [] OTHER               -> TRUE

\* The state after an accepted operation.
Effect(st, op) ==
  LET a == op.a IN
  CASE op.act = "new" ->
         [st EXCEPT !.slot[a[1]] = <<[v |-> a[2], s |-> a[3], n |-> a[4], m |-> a[5], x |-> 0]>>,
                    !.iter = Forget(st.iter, a[1])]
    [] op.act = "norms" ->
         [st EXCEPT !.slot[a[1]] = <<[st.slot[a[1]][1] EXCEPT !.n = a[2]]>>, !.iter = Forget(st.iter, a[1])]
    [] op.act = "meta" ->
         [st EXCEPT !.slot[a[1]] = <<[st.slot[a[1]][1] EXCEPT !.m = a[2]]>>]
    [] op.act = "explicit" ->
         [st EXCEPT !.slot[a[1]] = <<[st.slot[a[2]][1] EXCEPT !.m = 0, !.x = 1]>>, !.iter = Forget(st.iter, a[1])]
    [] op.act = "write" ->
         [st EXCEPT !.file[a[2]] = <<[val |-> st.slot[a[1]][1], fmt |-> Formats[a[3]]]>>]
    [] op.act = "load" ->
         [st EXCEPT !.slot[a[1]] = <<st.file[a[2]][1].val>>, !.iter = Forget(st.iter, a[1])]
    [] op.act = "istart" ->
         [st EXCEPT !.iter[a[1]] = <<[slot |-> a[2], pos |-> 0]>>]
    [] op.act = "inext" ->
         LET it == st.iter[a[1]][1] IN
         IF it.pos < Known(st.slot[it.slot][1])
         THEN [st EXCEPT !.iter[a[1]] = <<[it EXCEPT !.pos = it.pos + 1]>>]
         ELSE [st EXCEPT !.iter[a[1]] = <<>>]
    [] OTHER -> st

After(st, op) == IF Accepted(st, op) THEN Effect(st, op) ELSE st

\* ---- operations ---------------------------------------------------------
NWORD == 7      \* query words of the harness: known in some vocabularies, in others not
NVEC == 2
NBAD == 9
NSKIP == 4      \* 0: no skip set given
Slots == 1..NSLOT
Ops(act) ==
  CASE act = "new"  -> {[act |-> act, a |-> <<k, v, s, n, m>>] : k \in Slots, v \in 0..NVOC,
                          s \in 0..NSTO, n \in 0..NNRM, m \in 0..Len(MetPool)}
    [] act = "fit"  -> {[act |-> "new", a |-> <<k, v, s, n, m>>] : k \in Slots, v \in 1..6,
                          s \in 1..6, n \in 0..4, m \in 0..3}
    [] act = "norms" -> {[act |-> act, a |-> <<k, n>>] : k \in Slots, n \in 0..NNRM}
    [] act = "meta" -> {[act |-> act, a |-> <<k, m>>] : k \in Slots, m \in 0..Len(MetPool)}
    [] act = "explicit" -> {[act |-> act, a |-> <<k, j>>] : k \in Slots, j \in Slots}
    [] act = "write" -> {[act |-> act, a |-> <<k, f, 1>>] : k \in Slots, f \in 1..NFILE}
    [] act = "export" -> {[act |-> "write", a |-> <<k, f, x>>] : k \in Slots, f \in 1..NFILE, x \in 2..Len(Formats)}
    [] act = "load" -> {[act |-> act, a |-> <<k, f, mm>>] : k \in Slots, f \in 1..NFILE, mm \in 0..1}
    [] act = "probe" -> {[act |-> act, a |-> <<f, mm>>] : f \in 1..NFILE, mm \in 0..1}
    [] act = "istart" -> {[act |-> act, a |-> <<i, k>>] : i \in 1..NITER, k \in Slots}
    [] act = "inext" -> {[act |-> act, a |-> <<i>>] : i \in 1..NITER}
    \* how: subscript, embedding, with default, into buffer, with norm, with norm into buffer
    [] act = "look" -> {[act |-> act, a |-> <<k, w, how>>] : k \in Slots, w \in 1..NWORD, how \in 1..6}
    [] act = "sim"  -> {[act |-> act, a |-> <<k, w, n>>] : k \in Slots, w \in 1..NWORD, n \in 0..4}
    [] act = "vsim" -> {[act |-> act, a |-> <<k, q, n, s>>] : k \in Slots, q \in 1..NVEC, n \in 0..4, s \in 0..NSKIP}
    [] act = "ana"  -> {[act |-> act, a |-> <<k, x, y, z, n, s>>] : k \in Slots, x \in 1..4, y \in 2..NWORD, z \in {1, 3, 6},
                                                                    n \in {1, 3}, s \in 0..NSKIP}
    [] act = "isin" -> {[act |-> act, a |-> <<k, w>>] : k \in Slots, w \in 1..NWORD}
    \* which: idx, bulk n-gram indices, n-grams
    [] act = "voc"  -> {[act |-> act, a |-> <<k, w, which>>] : k \in Slots, w \in 1..NWORD, which \in 1..3}
    [] act = "slice" -> {[act |-> act, a |-> <<k, lo, hi, step>>] : k \in Slots, lo \in 0..2, hi \in 0..3, step \in 1..2}
    \* calls that cannot succeed: wrong buffers and vectors, missing files, indices out of range
    [] act = "bad" -> {[act |-> act, a |-> <<k, which>>] : k \in Slots, which \in 1..NBAD}
    [] OTHER -> {}

\* ---- operations of several threads ---------------------------------------
\* What an operation reads and writes. Two operations that do not conflict may
\* run in different threads; whatever the interleaving, the outcome is that of
\* running them one after the other (C25), in either order (MC25b).
Reads(st, op) ==
  LET a == op.a IN
  CASE op.act \in {"explicit", "istart"} -> {<<"slot", a[2]>>}
    [] op.act = "load" -> {<<"file", a[2]>>}
    [] op.act = "probe" -> {<<"file", a[1]>>}
    [] op.act = "inext" -> {<<"slot", st.iter[a[1]][1].slot>>}
    [] op.act = "new" -> {}
    [] OTHER -> {<<"slot", a[1]>>}
Writes(op) ==
  LET a == op.a IN
  CASE op.act \in {"new", "norms", "meta", "explicit", "load"} -> {<<"slot", a[1]>>}
    [] op.act = "write" -> {<<"file", a[2]>>}
    [] op.act \in {"istart", "inext"} -> {<<"iter", a[1]>>}
    [] OTHER -> {}
Conflict(st, x, y) == \/ Writes(x) \cap (Reads(st, y) \cup Writes(y)) # {}
                      \/ Writes(y) \cap Reads(st, x) # {}
\* the parts of the pool are shared, so assignments are left to a single thread
Threadable(op) == op.act \notin {"new", "norms", "meta", "bad"}
=============================================================================
