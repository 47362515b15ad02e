-------------------------------- MODULE MC18 --------------------------------
(* Design check: a word2vec file is written byte by byte; the complete file  *)
(* reads as what was written, with and without newlines; no shorter file     *)
(* reads as anything else. Words free of ASCII whitespace.                   *)
EXTENDS FFCompatRead
CONSTANTS MaxRows, Chars, Comps
VARIABLES ws, vs, nl, n
Words == UNION {[1..k -> Chars] : k \in 0..2}
Init == /\ \E k \in 0..MaxRows : ws \in {Tup(x) : x \in [1..k -> {Tup(w) : w \in Words}]}
        /\ Distinct(ws) /\ vs = <<>> /\ nl \in BOOLEAN /\ n = -1
Vectors == {<<x>> : x \in Comps}
Choose == n = -1 /\ vs' \in {Tup(x) : x \in [1..Len(ws) -> Vectors]} /\ n' = 0 /\ UNCHANGED <<ws, nl>>
Whole == W2VEncode(Tup([i \in 1..Len(ws) |-> Utf8(ws[i])]), vs, 1, nl)
Write == n >= 0 /\ n < Len(Whole) /\ n' = n + 1 /\ UNCHANGED <<ws, vs, nl>>
Next == Choose \/ Write
E == [meta |-> <<>>, norms |-> <<>>, vocab |-> <<[kind |-> "simple", words |-> ws]>>,
      storage |-> <<[kind |-> "nd", cols |-> 1, rows |-> vs]>>]
Val == [st |-> "ok", words |-> ws, vecs |-> vs]
Inv == n >= 0 =>
  LET r == W2VRead(SubSeq(Whole, 1, n)) IN
  /\ n = Len(Whole) => r = Val /\ (nl => W2VFails(Whole, E) = {})
  /\ n < Len(Whole) => /\ W2VFails(SubSeq(Whole, 1, n), E) # {}
                       /\ (ws # <<>> /\ r # CNo) => r = Val
=============================================================================
