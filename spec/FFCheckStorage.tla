--------------------------- MODULE FFCheckStorage ---------------------------
(* Clauses of C15 (quantized storage) and C16 (array storage, norms) on      *)
(* recorded accesses. Arrays are recorded as their shape and the list of     *)
(* their vectors along the last axis; norms as one-column matrices.          *)
EXTENDS FFStorage, FFTraceBase

\* A slice: {a, b, c}, each [] or [value].
SlicePos(P, sl) ==
  LET idx == SliceIdx(Len(P), sl.a, sl.b, IF sl.c = <<>> THEN 1 ELSE sl.c[1])
  IN Tup([j \in 1..Len(idx) |-> P[idx[j]]])
\* Positions in the original storage after a chain of slices.
ChainPos(s, chain) == FoldLeft(SlicePos, Tup([i \in 1..NRows(s) |-> i]), chain)

\* What a key selects from m rows: an exception, or a shape and positions (from 1).
Key(m, k) ==
  CASE k.t = "slice" ->
         IF k.s.c = <<0>> THEN [exc |-> "ValueError", shape |-> <<>>, pos |-> <<>>]
         ELSE LET p == SlicePos(Tup([i \in 1..m |-> i]), k.s) IN [exc |-> "", shape |-> <<Len(p)>>, pos |-> p]
    [] k.t = "mask" ->
         LET p == SelectSeq(Tup([i \in 1..m |-> i]), LAMBDA i : k.v[i])
         IN [exc |-> "", shape |-> <<Len(p)>>, pos |-> p]
    [] OTHER ->
         LET p == Tup([j \in 1..Len(k.v) |-> IntIdx(m, k.v[j])])
         IN IF 0 \in Elems(p) THEN [exc |-> "IndexError", shape |-> <<>>, pos |-> <<>>]
            ELSE [exc |-> "", shape |-> k.shape, pos |-> p]

Pre_(p, fs) == {p \o ": " \o f : f \in fs}

RowsSame(got, s, pos) ==
  Len(got) = Len(pos) /\ \A j \in 1..Len(pos) : RowSame(got[j], Row(s, pos[j]))

\* r: {t: "arr", cls, shape, v}
ArrFails(r, s, shape, pos) ==
  IF r.t # "arr" THEN {"no array"}
  ELSE Chk("shape", r.shape = Append(shape, s.cols))
       \cup (IF r.shape = Append(shape, s.cols) THEN Chk("values", RowsSame(r.v, s, pos)) ELSE {})
Class(s) == IF s.kind = "pq" THEN "QuantizedArray" ELSE IF s.norms1 THEN "Norms" ELSE "NdArray"

\* acc: {how, chain, key, res, ..}
AccFails(s, acc) ==
  LET P == ChainPos(s, acc.chain)
      n == Len(P)
      all == Tup([i \in 1..n |-> P[i]])
      abs(pos) == Tup([j \in 1..Len(pos) |-> P[pos[j]]])
  IN
  CASE acc.how = "get" ->
         LET k == Key(n, acc.key) IN
         \* numpy itself lets index arrays into a matrix without columns pass unchecked
         IF k.exc = "IndexError" /\ s.cols = 0 /\ acc.key.t # "int" THEN {}
         ELSE IF k.exc # "" THEN Chk(k.exc, acc.res.t = "exc" /\ k.exc \in Elems(acc.res.mro))
         ELSE ArrFails(acc.res, s, k.shape, abs(k.pos))
              \cup (IF acc.res.t # "arr" THEN {}
                    ELSE IF acc.key.t = "slice" THEN Chk("class of a slice", acc.res.cls = Class(s))
                         \cup Chk("same data", s.kind = "pq" \/ k.pos = <<>> \/ s.cols = 0 \/ acc.shares)
                    ELSE Chk("plain array", s.kind # "nd" \/ s.norms1 \/ acc.res.cls = "ndarray"))
    [] acc.how = "emb" ->            \* QuantizedArray.embedding
         LET k == Key(n, acc.key) IN
         IF k.exc # "" THEN Chk(k.exc, acc.res.t = "exc" /\ k.exc \in Elems(acc.res.mro))
         ELSE IF acc.out = "wrong" THEN Chk("buffer of the wrong shape refused", acc.res.t = "exc")
         ELSE ArrFails(acc.res, s, k.shape, abs(k.pos))
              \cup (IF acc.out = "none" THEN {}
                    ELSE Chk("buffer returned", acc.same)
                         \cup Pre_("buffer", ArrFails(acc.buf, s, k.shape, abs(k.pos))))
    [] acc.how = "recon" ->          \* PQ.reconstruct on codes: as a storage of these rows without norms
         LET t == [s EXCEPT !.codes = acc.codes, !.norms = <<>>]
             q == Tup([i \in 1..Len(acc.codes) |-> i])
         IN IF acc.out = "wrong" THEN Chk("buffer of the wrong shape refused", acc.res.t = "exc")
            ELSE ArrFails(acc.res, t, acc.shape, q)
                 \cup (IF acc.out = "none" THEN {}
                       ELSE Chk("buffer returned", acc.same)
                            \cup Pre_("buffer", ArrFails(acc.buf, t, acc.shape, q)))
    [] acc.how = "array" -> ArrFails(acc.res, s, <<n>>, all)
    [] acc.how = "iter"  -> ArrFails(acc.res, s, <<n>>, all)
                            \cup Chk("plain arrays", s.norms1 \/ acc.plain)
    [] acc.how = "size"  -> Chk("length", acc.len = n)
                            \cup Chk("shape", acc.shape = IF s.norms1 THEN <<n>> ELSE <<n, s.cols>>)
    [] acc.how = "load"  -> IF acc.res.t # "arr" THEN {"slice cannot be written and loaded"}
                            ELSE ArrFails(acc.res, s, <<n>>, all)
                                 \cup Chk("class", acc.res.cls = Class(s))

\* {op, s, acc: [..]}
StorageEvent(e) == Each(e.acc, LAMBDA a : Pre_(a.how, AccFails(e.s, a)))
=============================================================================
