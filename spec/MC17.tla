-------------------------------- MODULE MC17 --------------------------------
(* Design check: the conversion to explicit n-grams, done constructively,    *)
(* has all the stated properties and preserves every answer.                 *)
EXTENDS FFEmbed
CONSTANTS MaxWord, MaxQuery
VARIABLE c
Strings(n) == {Tup(s) : s \in UNION {[1..m -> {97, 98}] : m \in 0..n}}
Init == c \in {[x |-> x, lo |-> lo, hi |-> 2, ws |-> ws, w |-> w] :
                 x \in {0, 1, 2, 3}, lo \in {1, 2},
                 ws \in {<<>>} \cup {<<a>> : a \in Strings(MaxWord)} \cup {<<a, b>> : a \in Strings(1), b \in Strings(MaxWord) \ Strings(1)},
                 w \in Strings(MaxQuery)}
Next == UNCHANGED c
V == [lo |-> c.lo, hi |-> c.hi, words |-> c.ws] @@
     (CASE c.x = 0 -> [kind |-> "bucket", buckets |-> 1]
        [] c.x = 1 -> [kind |-> "bucket", buckets |-> 2]
        [] c.x = 2 -> [kind |-> "fasttext", buckets |-> U64(1)]
        [] OTHER   -> [kind |-> "fasttext", buckets |-> U64(3)])
N == U64Nat(UpperBound(V))
E == [meta |-> <<>>, norms |-> <<>>, vocab |-> <<V>>,
      storage |-> <<[kind |-> "nd", cols |-> 2, rows |-> Tup([i \in 1..N |-> <<FOfInt(i), FOfInt(-i * i)>>])]>>]
X == ToExplicit(E)
Proj == [vocab |-> X.vocab, norms |-> X.norms, dims |-> 2, nwords |-> Len(c.ws),
         storage |-> <<[shape |-> <<Len(X.storage[1].rows), 2>>, rows |-> X.storage[1].rows]>>]
Same(a, b) == IF a.t # b.t THEN FALSE
              ELSE IF a.t = "none" THEN TRUE ELSE IF a.t = "row" THEN a.i = b.i ELSE a.v = b.v
Known == Elems(AllNGrams(V))
Inv == /\ ExplicitFails(Proj, E) = {}
       /\ Same(Answer(X, c.w), ExplicitAnswer(E, c.w))
       /\ Elems(NGrams(c.w, c.lo, c.hi, TRUE)) \subseteq Known => Same(Answer(X, c.w), Answer(E, c.w))
=============================================================================
