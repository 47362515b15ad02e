-------------------------------- MODULE MC06 --------------------------------
(* Design check: the constructive n-gram list is the declared one.           *)
EXTENDS FFNgrams
CONSTANTS MaxLen, MaxN
VARIABLE c
Words == UNION {[1..k -> {97, 98}] : k \in 0..MaxLen}
Init == c \in {[w |-> Tup(w), lo |-> lo, hi |-> hi, br |-> br] :
               w \in Words, lo \in 1..MaxN, hi \in 1..MaxN, br \in BOOLEAN}
Next == UNCHANGED c
Out == NGrams(c.w, c.lo, c.hi, c.br)
Inv == ValidRange(c.lo, c.hi) =>
  /\ IsNGramList(Out, c.w, c.lo, c.hi, c.br)
  /\ \A k \in 1..Len(Out) : Len(Out[k]) \in c.lo..c.hi
  /\ (Len(Bracketed(c.w, c.br)) < c.lo) => Out = <<>>
  /\ (Len(Bracketed(c.w, c.br)) >= c.lo) => Out # <<>>
=============================================================================
