-------------------------------- MODULE MC09 --------------------------------
(* Design check: lookups are total, typed by kind, and stay below the bound. *)
EXTENDS FFVocab
CONSTANTS MaxWords, MaxWord
VARIABLE c
Strs == UNION {[1..m -> {97, 98}] : m \in 0..MaxWord}
Kinds == {[kind |-> "simple"],
          [kind |-> "bucket", lo |-> 2, hi |-> 3, buckets |-> 2],
          [kind |-> "fasttext", lo |-> 3, hi |-> 3, buckets |-> U64(5)],
          [kind |-> "explicit", lo |-> 2, hi |-> 3, ngrams |-> << <<60, 97>>, <<98, 62>> >>, table |-> <<0, 0>>]}
Init == c \in UNION {{[x |-> x, words |-> Tup(ws), w |-> Tup(w)] :
                        x \in Kinds, ws \in [1..k -> Strs], w \in Strs} : k \in 0..MaxWords}
Next == UNCHANGED c
v == [words |-> Tup([i \in 1..Len(c.words) |-> Tup(c.words[i])])] @@ c.x
Inv == ValidWords(v.words) =>
  LET r == Lookup(v, c.w)
      n == U64(Len(v.words)) IN
  /\ (r.t = "int") <=> (c.w \in Elems(v.words))
  /\ r.t = "int" => v.words[U64Nat(r.v) + 1] = c.w /\ U64Less(r.v, n)
  /\ r.t = "list" => /\ r.v # <<>> /\ v.kind # "simple"
                     /\ \A i \in 1..Len(r.v) : ~U64Less(r.v[i], n) /\ U64Less(r.v[i], UpperBound(v))
  /\ \A i \in 1..Len(v.words) : Lookup(v, v.words[i]).v = U64(i - 1)
=============================================================================
