------------------------------- MODULE FFText -------------------------------
(* Strings are sequences of Unicode code points, files sequences of bytes.   *)
EXTENDS FFBase

Utf8Char(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Utf8(w) == FoldLeft(LAMBDA acc, c : acc \o Utf8Char(c), <<>>, w)

\* Well-formed sequences (Unicode table 3-7): length announced by the lead byte
\* and the admissible range of the second byte.
LeadLen(x) == IF x < 128 THEN 1
              ELSE IF x \in 194..223 THEN 2
              ELSE IF x \in 224..239 THEN 3
              ELSE IF x \in 240..244 THEN 4
              ELSE 0
SecondOk(x, y) == CASE x = 224 -> y \in 160..191
                    [] x = 237 -> y \in 128..159
                    [] x = 240 -> y \in 144..191
                    [] x = 244 -> y \in 128..143
                    [] OTHER   -> y \in 128..191

\* Length of the longest prefix of a well-formed sequence at offset o (at least
\* 1) and whether it is complete.
SeqAt(b, o) ==
  LET x == b[o + 1]
      n == LeadLen(x)
      ok(k) == /\ o + k <= Len(b)
               /\ IF k = 2 THEN SecondOk(x, b[o + 2]) ELSE b[o + k] \in 128..191
      len == IF n <= 1 THEN 1
             ELSE IF ~ok(2) THEN 1
             ELSE IF n = 2 THEN 2
             ELSE IF ~ok(3) THEN 2
             ELSE IF n = 3 THEN 3
             ELSE IF ~ok(4) THEN 3 ELSE 4
  IN <<len, n > 0 /\ len = n>>

CodeAt(b, o, n) ==
  CASE n = 1 -> b[o + 1]
    [] n = 2 -> (b[o + 1] - 192) * 64 + (b[o + 2] - 128)
    [] n = 3 -> (b[o + 1] - 224) * 4096 + (b[o + 2] - 128) * 64 + (b[o + 3] - 128)
    [] n = 4 -> (b[o + 1] - 240) * 262144 + (b[o + 2] - 128) * 4096
                + (b[o + 3] - 128) * 64 + (b[o + 4] - 128)

\* Decoding: [ok, word], where every maximal malformed sequence has become one
\* U+FFFD and ok says that there was none.
RECURSIVE Decode_(_, _, _, _)
Decode_(b, o, acc, ok) ==
  IF o >= Len(b) THEN [ok |-> ok, word |-> acc]
  ELSE LET s == SeqAt(b, o) IN
       IF s[2] THEN Decode_(b, o + s[1], Append(acc, CodeAt(b, o, s[1])), ok)
       ELSE Decode_(b, o + s[1], Append(acc, 65533), FALSE)
Utf8Decode(b) == Decode_(b, 0, <<>>, TRUE)

AsciiSpace == {9, 10, 11, 12, 13, 32}

\* Decimal digits of a natural number as ASCII bytes.
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

\* Surrounding whitespace removed.
Strip(b, ws) ==
  LET keep == {i \in 1..Len(b) : b[i] \notin ws}
  IN IF keep = {} THEN <<>> ELSE SubSeq(b, Min(keep), Max(keep))

\* Pieces between occurrences of the byte d.
SplitOn(b, d) ==
  LET step(acc, x) == IF x = d THEN <<Append(acc[1], acc[2]), <<>> >>
                      ELSE <<acc[1], Append(acc[2], x)>>
      r == FoldLeft(step, << <<>>, <<>> >>, b)
  IN Append(r[1], r[2])

\* Maximal runs of non-separator bytes, as Python's split on a whitespace class
\* after the line's end was stripped: a leading run of separators gives an empty first field.
Fields(b, ws) ==
  LET step(acc, x) == IF x \in ws
                      THEN IF acc[3] THEN acc ELSE <<Append(acc[1], acc[2]), <<>>, TRUE>>
                      ELSE <<acc[1], Append(acc[2], x), FALSE>>
      r == FoldLeft(step, << <<>>, <<>>, FALSE >>, b)
  IN IF r[3] THEN r[1] ELSE Append(r[1], r[2])
=============================================================================
