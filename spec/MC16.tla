-------------------------------- MODULE MC16 --------------------------------
(* Design check: the slice formula selects exactly the positions it should,  *)
(* in order, for every length, start, stop and step.                         *)
EXTENDS FFStorage
CONSTANTS MaxN, Ext
VARIABLE c
R == -(MaxN + Ext)..(MaxN + Ext)
Opt(X) == {<<>>} \cup {<<x>> : x \in X}
Init == c \in {[n |-> n, a |-> a, b |-> <<>>, s |-> 0] : n \in 0..MaxN, a \in Opt(R)}
Next == c.s = 0 /\ c' \in {[c EXCEPT !.b = b, !.s = s] : b \in Opt(R), s \in (-(MaxN + 1)..(MaxN + 1)) \ {0}}
Inv == c.s # 0 =>
  LET i == SliceIdx(c.n, c.a, c.b, c.s) IN
  /\ {i[k] - 1 : k \in 1..Len(i)} = {p \in 0..(c.n - 1) : InSlice(c.n, c.a, c.b, c.s, p)}
  /\ \A k \in 1..(Len(i) - 1) : i[k + 1] = i[k] + c.s
=============================================================================
