-------------------------------- MODULE MC21 --------------------------------
(* Design check: decoding of all short byte strings over representative      *)
(* bytes. Valid strings are exactly the encodings; every other one decodes,  *)
(* lossily, piece by piece; decoding in two parts at a character boundary is *)
(* decoding in one.                                                          *)
EXTENDS FFText
CONSTANTS Bytes, MaxLen
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Bytes : b' = Append(b, x)
D(s) == Utf8Decode(s)
ValidChar(c) == c \in 0..1114111 /\ c \notin 55296..57343
Bad(d) == {i \in 1..Len(d.word) : d.word[i] = 65533}
Inv == LET d == D(b) IN
  /\ \A i \in 1..Len(d.word) : ValidChar(d.word[i])
  /\ d.ok <=> Utf8(d.word) = b
  /\ d.ok => \A i \in 1..Len(d.word) : D(Utf8Char(d.word[i])) = [ok |-> TRUE, word |-> <<d.word[i]>>]
  /\ ~d.ok => Bad(d) # {}
  /\ Len(d.word) <= Len(b)
  \* ASCII bytes survive, in order
  /\ SelectSeq(d.word, LAMBDA c : c < 128) = SelectSeq(b, LAMBDA c : c < 128)
  \* prefix: an ASCII byte or a complete character never joins what follows
  /\ D(<<97>> \o b).word = <<97>> \o d.word
  /\ D(<<195, 164>> \o b).word = <<228>> \o d.word
  /\ D(b \o <<97>>).word = d.word \o <<97>>
  /\ D(b \o <<226, 130, 172>>).word = d.word \o <<8364>>
=============================================================================
