-------------------------------- MODULE MC20 --------------------------------
(* Design check: fastText models. A model written byte by byte parses to what*)
(* it holds and no shorter file parses; and the rows FTModel restores average*)
(* to the embeddings they were made from, for all small integer matrices.    *)
EXTENDS FFCompatRead
CONSTANTS MaxVal, Buckets
VARIABLES ws, m, nm, n
Cfg(b) == <<1, 0, 0, 0, 0, 1, 1, 1, b, 1, 2, 0>>
WL == {<<>>, << <<97>> >>, << <<97, 98>> >>, << <<228>>, <<97>> >>}
Init == ws \in WL /\ m = <<>> /\ nm = <<>> /\ n = -1
RowSets(b) == [1..(Len(ws) + b) -> -MaxVal..MaxVal]
Choose == /\ m = <<>>
        /\ \E b \in Buckets : m' \in {<<b, Tup(x)>> : x \in RowSets(b)}
        /\ nm' \in {<<>>} \cup {<<Tup(x)>> : x \in [1..Len(ws) -> 1..2]}
        /\ n' = -1 /\ UNCHANGED ws
B == m[1]
Fl == Tup([i \in 1..Len(m[2]) |-> <<FOfInt(m[2][i])>>])
Whole == FTEncode(ws, Cfg(B), LE(0, 8), Fl)
\* bytes matter only for one matrix each
Small == m # <<>> /\ nm = <<>> /\ \A i \in 1..Len(m[2]) : m[2][i] = (i % 2)
Write == Small /\ n < Len(Whole) /\ n' = n + 1 /\ UNCHANGED <<ws, m, nm>>
Next == Choose \/ Write
E == [meta |-> <<>>, vocab |-> <<FTVocab(ws, Cfg(B))>>, storage |-> <<[kind |-> "nd", cols |-> 1, rows |-> Fl]>>,
      norms |-> IF nm = <<>> THEN <<>> ELSE <<Tup([i \in 1..Len(ws) |-> FOfInt(nm[1][i])])>>]
Parsed == n >= 0 =>
  LET p == FTParse(SubSeq(Whole, 1, n)) IN
  IF n < Len(Whole) THEN p.st = "bad"
  ELSE p.st = "ok" /\ p.rows = Fl /\ p.cfg = Cfg(B) /\ p.words = Tup([i \in 1..Len(ws) |-> Utf8(ws[i])]) /\ p.end = Len(Whole)
Restores == m # <<>> /\ n = -1 =>
  LET mod == FTModel(E) IN
  /\ \A i \in 1..Len(ws) : LET s == FTSum(Voc(E), mod, i)
                               k == IF nm = <<>> THEN 1 ELSE nm[1][i]
                           IN s.sum = <<m[2][i] * k * s.n>>
  /\ \A i \in (Len(ws) + 1)..Len(mod) : mod[i] = Fl[i]
  \* and a file holding them is accepted as the written form of E
  /\ nm = <<>> => FTWriteFails(FTEncode(ws, Cfg(B), LE(0, 8), mod), E) = {}
=============================================================================
