-------------------------------- MODULE MC19 --------------------------------
(* Design check: text files. What is written reads back; a line with another *)
(* number of components and missing lines are refused; and a numeral denotes *)
(* exactly one float among its neighbours (FFDecimal).                       *)
EXTENDS FFCompatRead
CONSTANTS MaxRows, Chars
VARIABLES ws, ts, sep, hdr
Toks == {<<49>>, <<45, 46, 53>>}                       \* 1, -.5
Words == UNION {[1..k -> Chars] : k \in 0..2}
Lines == UNION {[1..k -> Toks] : k \in 1..2}
Init == /\ \E k \in 0..MaxRows : ws \in {Tup(x) : x \in [1..k -> {Tup(w) : w \in Words}]}
        /\ ts = << <<>> >> /\ sep \in {<<32>>, <<9>>, <<32, 9>>} /\ hdr = <<>>
Next == /\ ts = << <<>> >>
        /\ ts' \in {Tup(x) : x \in [1..Len(ws) -> {Tup(l) : l \in Lines}]}
        /\ hdr' \in {<<>>} \cup {<<r, c>> : r \in {Len(ws), Len(ws) + 1}, c \in 1..2}
        /\ UNCHANGED <<ws, sep>>
File == TextEncode(Tup([i \in 1..Len(ws) |-> <<Utf8(ws[i]), ts[i]>>]), sep, hdr)
Dim == IF hdr = <<>> THEN Len(ts[1]) ELSE hdr[2]
Inv == ts # << <<>> >> /\ ~(ws = <<>> /\ hdr = <<>>) =>
  LET r == TextRead(File, hdr # <<>>)
      bad == (\E i \in 1..Len(ws) : Len(ts[i]) # Dim) \/ (hdr # <<>> /\ Len(ws) < hdr[1])
  IN IF bad THEN r = CNo
     ELSE r = [st |-> "ok", words |-> Tup([i \in 1..Len(ws) |-> Utf8(ws[i])]), toks |-> ts]

\* numerals against neighbouring floats
Num(neg, s, e) == (IF neg THEN <<45>> ELSE <<>>) \o s \o <<101>> \o (IF e < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs_(e))
Around(b) == {b - 1, b, b + 1}
DecimalOk ==
  \* 1, 1/3, 16777217 (a tie), the smallest and largest floats
  /\ {x \in Around(1065353216) : RoundsTo(<<49>>, x)} = {1065353216}
  /\ {x \in Around(1051372203) : RoundsTo(<<46>> \o Tup([i \in 1..12 |-> 51]), x)} = {1051372203}
  /\ {x \in Around(1266679808) : RoundsTo(<<49, 54, 55, 55, 55, 50, 49, 55>>, x)} = {1266679808}
  /\ {x \in Around(1266679809) : RoundsTo(<<49, 54, 55, 55, 55, 50, 49, 57>>, x)} = {1266679810}
  /\ {x \in {0, 1, 2} : RoundsTo(Num(FALSE, <<49, 46, 52>>, -45), x)} = {1}
  /\ {x \in {0, 1, 2} : RoundsTo(Num(FALSE, <<55>>, -46), x)} = {0}
  /\ {x \in {0, 1, 2} : RoundsTo(Num(FALSE, <<55, 46, 49>>, -46), x)} = {1}
  /\ {x \in {2139095037, 2139095038, 2139095039} : RoundsTo(Num(FALSE, <<51, 46, 52, 48, 50, 56, 50, 51, 53>>, 38), x)} = {2139095039}
  /\ \A i \in -60..60 : {x \in {FOfInt(j) : j \in -60..60} : RoundsTo((IF i < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs_(i)), x)} = {FOfInt(i)}
ASSUME DecimalOk
=============================================================================
