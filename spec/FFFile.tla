------------------------------- MODULE FFFile -------------------------------
(* The life of a finalfusion file: embeddings are written byte by byte, the  *)
(* writer may stop at any byte, the file may be corrupted, and it is loaded. *)
EXTENDS FFFormat

CONSTANTS WordLists,      \* word lists to use
          StorageKinds,   \* of "nd", "pq", "pqn", "pqp", "pqnp"
          Orders          \* "standard" or "any"

VARIABLES val,    \* value being written: [meta, vocab, storage, norms]
          order,  \* chunk order of the file
          n,      \* bytes on disk so far
          cor     \* <<>> or << <<position, byte>> >>: one corrupted byte

Vocabs == {[kind |-> "simple", words |-> w] : w \in WordLists}
     \cup {[kind |-> "bucket", words |-> w, lo |-> 1, hi |-> 3, buckets |-> 1] : w \in WordLists}
VocabsF == {[kind |-> "fasttext", words |-> w, lo |-> 2, hi |-> 2, buckets |-> U64(3)] : w \in WordLists}
VocabsE == {[kind |-> "explicit", words |-> w, lo |-> 3, hi |-> 6,
             ngrams |-> << <<60, 97>>, <<8364>> >>, table |-> <<1, 0>>] : w \in WordLists}

MkStorage(k, rows) ==
  IF k = "nd" THEN [kind |-> "nd", cols |-> 1, rows |-> Tup([i \in 1..rows |-> <<FOfInt(i)>>])]
  ELSE [kind |-> "pq", cols |-> 2, ncent |-> 2,
        sub |-> << << <<FOfInt(1)>>, <<FOfInt(2)>> >>, << <<FOfInt(3)>>, <<FOfInt(4)>> >> >>,
        proj |-> IF k \in {"pqp", "pqnp"} THEN << << <<FOfInt(0), FOfInt(1)>>, <<FOfInt(1), FOfInt(0)>> >> >> ELSE <<>>,
        norms |-> IF k \in {"pqn", "pqnp"} THEN <<Tup([i \in 1..rows |-> FOfInt(i + 1)])>> ELSE <<>>,
        codes |-> Tup([i \in 1..rows |-> <<i % 2, (i + 1) % 2>>])]

MkValue(v, s, nm, mt) ==
  [meta |-> IF mt THEN << <<97, 61, 49>> >> ELSE <<>>,
   vocab |-> <<v>>, storage |-> <<MkStorage(s, U64Nat(UpperBound(v)))>>,
   norms |-> IF nm THEN <<Tup([i \in 1..Len(v.words) |-> FOfInt(i)])>> ELSE <<>>]

Values(V) == {MkValue(v, s, nm, mt) : v \in V, s \in StorageKinds, nm \in BOOLEAN, mt \in BOOLEAN}
InitValue == \/ val \in Values(Vocabs)
             \/ val \in Values(VocabsF)
             \/ val \in Values(VocabsE)

Perms(s) == {Tup([i \in 1..Len(s) |-> s[p[i]]]) : p \in {q \in [1..Len(s) -> 1..Len(s)] : Cardinality({q[i] : i \in 1..Len(s)}) = Len(s)}}

Init == /\ InitValue
        /\ order \in (IF Orders = "any" THEN Perms(ChunksOf(val)) ELSE {ChunksOf(val)})
        /\ n = 0 /\ cor = <<>>

Whole == Concrete(EncodeIn(val, order))
WriteByte == n < Len(Whole) /\ n' = n + 1 /\ UNCHANGED <<val, order, cor>>
WriteAll  == n = 0 /\ n' = Len(Whole) /\ UNCHANGED <<val, order, cor>>
Corrupt(bytes) == /\ n = Len(Whole) /\ cor = <<>>
                  /\ \E p \in 1..n, x \in bytes : Whole[p] # x /\ cor' = << <<p, x>> >>
                  /\ UNCHANGED <<val, order, n>>

Disk == LET b == SubSeq(Whole, 1, n)
        IN IF cor = <<>> THEN b ELSE [b EXCEPT ![cor[1][1]] = cor[1][2]]

Done == n = Len(Whole) /\ cor = <<>>

\* C01: what was written is what is loaded, and writing it again gives the file
RoundTrip == Done /\ order = ChunksOf(val) =>
  LET p == Parse(Disk) IN p.st = "ok" /\ p.val = val /\ Concrete(Encode(p.val)) = Disk /\ Fits(val)
\* C02: the layout clauses accept it, and nothing that is one byte off outside the padding
Layout == (Done /\ order = ChunksOf(val) => LayoutFails(Disk, val) = {})
LayoutStrict == cor # <<>> /\ order = ChunksOf(val) =>
  (LayoutFails(Disk, val) = {}) = (Encode(val)[cor[1][1]] = ANY)
\* C03: a component is found exactly when it is there, whatever the order
Ids == <<VocabIds, {ID_SIMPLE}, {ID_BUCKET}, {ID_FASTTEXT}, {ID_EXPLICIT}, StorageIds, {ID_ND}, {ID_PQ}, {ID_NORMS}, {ID_META}>>
ReadAt(b, o, ids) ==
  LET id == NatAt(b, o - 12, 4) IN
  IF id \in VocabIds THEN ReadVocab(b, o, id)
  ELSE IF id \in StorageIds THEN ReadStorage(b, o, id)
  ELSE IF id = ID_NORMS THEN ReadNorms(b, o)
  ELSE LET k == NatAt(b, o - 8, 8) IN IF k < 0 \/ ~Has(b, o, k) THEN Bad ELSE Ok(o + k, Slice(b, o, k))
Original(ids) ==   \* the component with an identifier in ids, as <<>> or <<value>>
  LET hit == SelectSeq(order, LAMBDA c : c[1] \in ids)
  IN IF hit = <<>> THEN <<>>
     ELSE CASE hit[1][2] = "meta" -> val.meta [] hit[1][2] = "vocab" -> val.vocab
            [] hit[1][2] = "storage" -> val.storage [] hit[1][2] = "norms" -> val.norms
Components == Done =>
  \A k \in 1..Len(Ids) :
    LET o == FindChunk(Disk, Ids[k])
        orig == Original(Ids[k])
    IN IF orig = <<>> THEN o = 0
       ELSE o > 0 /\ ReadAt(Disk, o, Ids[k]).st = "ok" /\ ReadAt(Disk, o, Ids[k]).val = orig[1]
\* C04: nothing short of the whole file is embeddings, and components are whole or refused
NoTruncation == n < Len(Whole) =>
  /\ order = ChunksOf(val) => Parse(Disk).st = "bad"
  /\ \A k \in 1..Len(Ids) :
       LET o == FindChunk(Disk, Ids[k])
           orig == Original(Ids[k])
       IN o > 0 => LET r == ReadAt(Disk, o, Ids[k]) IN r.st = "bad" \/ (orig # <<>> /\ r.val = orig[1])
\* C05: what a corrupted file still yields fits together and is what the bytes say
Corrupted == cor # <<>> =>
  LET p == Parse(Disk) IN
    /\ p.st \in {"ok", "bad", "open"}
    /\ p.st = "ok" => Fits(p.val) /\ (p.val.meta = <<>> \/ Utf8Decode(p.val.meta[1]).ok)
                      /\ Matches(Disk, Encode(p.val))
=============================================================================
