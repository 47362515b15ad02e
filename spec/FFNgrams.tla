------------------------------ MODULE FFNgrams ------------------------------
(* Character n-grams.                                                        *)
EXTENDS FFBase

LT_ == 60   \* '<'
GT_ == 62   \* '>'

Bracketed(w, br) == IF br THEN <<LT_>> \o w \o <<GT_>> ELSE w

\* All n-grams of w with lengths lo..hi: by start, longest first.
NGrams(w, lo, hi, br) ==
  LET b == Bracketed(w, br)
      L == Len(b)
      at(i) == LET m == Min2(hi, L - i + 1)
               IN Tup([j \in 1..(IF m < lo THEN 0 ELSE m - lo + 1) |-> SubSeq(b, i, i + m - j)])
  IN FoldLeft(LAMBDA acc, i : acc \o at(i), <<>>, Tup([i \in 1..Max2(0, L + 1 - lo) |-> i]))

\* The same list characterised declaratively: the spans <<start, length>> in range,
\* each once, ordered by start and then by decreasing length.
Spans(L, lo, hi) == {s \in (1..L) \X (lo..hi) : s[1] + s[2] - 1 <= L}
SpanBefore(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] > t[2])
IsNGramList(out, w, lo, hi, br) ==
  LET b == Bracketed(w, br)
      S == Spans(Len(b), lo, hi)
  IN /\ Len(out) = Cardinality(S)
     /\ \A s \in S :
          out[Cardinality({t \in S : SpanBefore(t, s)}) + 1] = SubSeq(b, s[1], s[1] + s[2] - 1)

ValidRange(lo, hi) == lo >= 1 /\ hi >= lo
=============================================================================
