-------------------------------- MODULE MC10 --------------------------------
(* Design check: lookups are total; a normalized sum has length one (or is   *)
(* zero), points the way of the sum and does not depend on n-gram order.     *)
EXTENDS FFEmbed
CONSTANTS MaxWord, MaxVal
VARIABLE c
Strings == {Tup(s) : s \in UNION {[1..m -> {97, 98}] : m \in 0..MaxWord}}
Vals == -MaxVal..MaxVal
Vocs == {[kind |-> "simple", words |-> << <<97>> >>, n |-> 1],
         [kind |-> "bucket", words |-> << <<97>> >>, lo |-> 1, hi |-> 2, buckets |-> 1, n |-> 3],
         [kind |-> "fasttext", words |-> << <<98>> >>, lo |-> 2, hi |-> 2, buckets |-> U64(2), n |-> 3],
         [kind |-> "explicit", words |-> << <<97>> >>, lo |-> 1, hi |-> 2,
          ngrams |-> << <<97>>, <<98, 62>>, <<98>> >>, table |-> <<0, 1, 0>>, n |-> 3]}
Init == c \in {[v |-> v, m |-> <<>>, w |-> w] : v \in Vocs, w \in Strings}
Next == c.m = <<>> /\ c' \in {[c EXCEPT !.m = m] : m \in [1..c.v.n -> [1..2 -> Vals]]}
E == [meta |-> <<>>, norms |-> <<>>, vocab |-> <<c.v>>,
      storage |-> <<[kind |-> "nd", cols |-> 2,
                     rows |-> Tup([i \in 1..c.v.n |-> <<FOfInt(c.m[i][1]), FOfInt(c.m[i][2])>>])]>>]
Inv == c.m # <<>> =>
  LET a == Answer(E, c.w)
      u == IF a.t = "sum" THEN Unit14(a.v) ELSE <<>>
  IN /\ (a.t = "row") <=> (c.w \in Elems(c.v.words))
     /\ a.t = "none" => SubIndices(c.v, c.w, TRUE, U64(0)) = <<>>
     /\ a.t = "sum" =>
          /\ a.v = SumRows(E, Reverse(Lookup(c.v, c.w).v))
          /\ SqSum(a.v) = 0 => u = <<0, 0>>
          /\ SqSum(a.v) # 0 => Near(SqSum(u), ONE14 * ONE14, 6 * ONE14)
          /\ \A k \in 1..2 : u[k] * a.v[k] >= 0
          /\ Near(u[1] * a.v[2], u[2] * a.v[1], 2 * (Abs_(a.v[1]) + Abs_(a.v[2])))
=============================================================================
