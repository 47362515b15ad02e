-------------------------------- MODULE Gen ---------------------------------
(* Bounded-exhaustive cases for the implementation, enumerated by the        *)
(* specification: FF_GEN names the space, FF_OUT the file.                   *)
EXTENDS FFSession, Json, IOUtils

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

GenNgrams == {[w |-> Tup(w), lo |-> lo, hi |-> hi, br |-> br] :
                w \in SeqsUpTo({97, 228}, 4), lo \in 0..3, hi \in 0..4, br \in BOOLEAN}

\* n-gram lists (with duplicates) and tables over a subset of the n-grams
GenTables ==
  {[ngrams |-> Tup(g), given |-> FALSE, keys |-> <<>>, vals |-> <<>>] : g \in SeqsUpTo(1..3, 3)}
  \cup UNION {
     LET K == {k \in 1..3 : TRUE} IN
     {[ngrams |-> Tup(g), given |-> TRUE, keys |-> Tup(ks), vals |-> Tup(vs)] :
        ks \in {s \in SeqsUpTo(1..3, 3) : Distinct(s) /\ \A a, b \in DOMAIN s : a < b => s[a] < s[b]},
        vs \in [1..3 -> -1..2]} : g \in {s \in SeqsUpTo(1..3, 3) : Len(s) < 3 \/ s[1] <= s[2]}}

GenWords == {[words |-> Tup(ws)] :
               ws \in SeqsUpTo({<<>>, <<97>>, <<98>>, <<97, 98>>}, 3)}

\* embeddings: every combination of vocabulary, storage form, norms and metadata
Ws == { <<>>, << <<97>> >>, << <<228, 98>>, <<>> >> }
GenVocabs == {[kind |-> "simple", words |-> w] : w \in Ws}
        \cup {[kind |-> "bucket", words |-> w, lo |-> 1, hi |-> 3, buckets |-> <<b, 0, 0, 0>>] : w \in Ws, b \in {1, 2}}
        \cup {[kind |-> "fasttext", words |-> w, lo |-> 2, hi |-> 2, buckets |-> <<b, 0, 0, 0>>] : w \in Ws, b \in {1, 3}}
        \cup {[kind |-> "explicit", words |-> w, lo |-> 3, hi |-> 6, ngrams |-> << <<60, 97>>, <<8364>> >>, table |-> t] :
                 w \in Ws, t \in {<<0, 0>>, <<1, 0>>}}
GenValues == {c \in {[vocab |-> v, storage |-> s, norms |-> n, meta |-> m] :
                 v \in GenVocabs, s \in {"nd", "pq", "pqn", "pqp", "pqnp"}, n \in BOOLEAN, m \in BOOLEAN} :
              ~(c.vocab.kind = "simple" /\ c.vocab.words = <<>>)}

\* every slice of sequences of up to 4 elements
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
GenSlices == {[n |-> n, a |-> a, b |-> b, c |-> c] :
                n \in 0..4, a \in Opt(-6..6), b \in Opt(-6..6), c \in Opt(-3..3)}

\* byte strings over representative bytes
GenUtf8 == {[b |-> Tup(w)] : w \in SeqsUpTo({65, 128, 143, 159, 160, 191, 192, 194, 224, 225, 237, 240, 241, 244, 255}, 3)}

\* every construction; every assignment to every object that can be constructed
GenNew == {op \in Ops("new") : op.a[1] = 1}
GenAssign == {[ops |-> <<op, x>>] : op \in {o \in GenNew : Accepted(Empty, o)},
                x \in {y \in Ops("norms") \cup Ops("meta") : y.a[1] = 1}}

Cases == CASE IOEnv.FF_GEN = "GenNew" -> GenNew
           [] IOEnv.FF_GEN = "GenAssign" -> GenAssign
           [] IOEnv.FF_GEN = "GenSlices" -> GenSlices
           [] IOEnv.FF_GEN = "GenUtf8" -> GenUtf8
           [] IOEnv.FF_GEN = "GenValues" -> GenValues
           [] IOEnv.FF_GEN = "GenNgrams" -> GenNgrams
           [] IOEnv.FF_GEN = "GenTables" ->
                {[c EXCEPT !.vals = SubSeq(c.vals, 1, Len(c.keys))] : c \in GenTables}
           [] IOEnv.FF_GEN = "GenWords"  -> GenWords

ASSUME ndJsonSerialize(IOEnv.FF_OUT, SetToSeq(Cases))
=============================================================================
