-------------------------------- MODULE MC08 --------------------------------
(* Design check: a valid table indexes exactly 0..b-1, and words get exactly *)
(* the entries of their known n-grams, in order.                             *)
EXTENDS FFVocab
CONSTANTS MaxNgrams, MaxWord
VARIABLE c
Pool == << <<60, 97>>, <<97, 98>>, <<98, 62>>, <<98, 97>> >>
Init == c \in UNION {{[k |-> k, vals |-> Tup(v), w |-> Tup(w)] :
                        v \in [1..k -> -1..k], w \in UNION {[1..m -> {97, 98}] : m \in 0..MaxWord}} : k \in 0..MaxNgrams}
Next == UNCHANGED c
ng == SubSeq(Pool, 1, c.k)
x == [kind |-> "explicit", lo |-> 2, hi |-> 3, ngrams |-> ng, table |-> c.vals]
Inv == ValidExplicit(ng, ng, c.vals) =>
  LET b == TableBound(c.vals)
      s == Indexed(x, c.w, TRUE, U64(5))
      all == NGrams(c.w, 2, 3, TRUE)
  IN /\ Elems(c.vals) = 0..(b - 1)
     /\ Tup([i \in 1..Len(s) |-> s[i][1]]) = SelectSeq(all, LAMBDA g : g \in Elems(ng))
     /\ \A i \in 1..Len(s) : U64Nat(s[i][2]) \in 5..(5 + b - 1)
     /\ \A g \in Elems(all) : (IndexOf(x, g) = None) <=> g \notin Elems(ng)
=============================================================================
