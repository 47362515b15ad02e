-------------------------------- MODULE MC14 --------------------------------
(* Design check: analogies over integer vectors. The order by the exact      *)
(* direction b - a + c is the order by its normalized form, the default      *)
(* excludes exactly the query words, and an empty skip set excludes nothing. *)
EXTENDS FFEmbed
CONSTANT MaxVal
VARIABLE c
Vals == -MaxVal..MaxVal
Ws == << <<97>>, <<98>>, <<99>> >>
Init == c \in {[m |-> <<>>, q |-> q, given |-> g] : q \in [1..3 -> 1..3], g \in BOOLEAN}
Next == c.m = <<>> /\ c' \in {[c EXCEPT !.m = m] : m \in [1..3 -> [1..2 -> Vals]]}
R(i) == <<c.m[i][1], c.m[i][2]>>
D == VAdd(VSub(R(c.q[2]), R(c.q[1])), R(c.q[3]))
N2 == SqSum(D)
E == [meta |-> <<>>, norms |-> <<>>, vocab |-> <<[kind |-> "simple", words |-> Ws]>>,
      storage |-> <<[kind |-> "nd", cols |-> 2, rows |-> Tup([i \in 1..3 |-> <<FOfInt(R(i)[1]), FOfInt(R(i)[2])>>])]>>]
Skip == IF c.given THEN {} ELSE {Ws[c.q[j]] : j \in 1..3}
Inv == c.m # <<>> =>
  /\ Eligible(E, Skip) = (1..3) \ (IF c.given THEN {} ELSE {c.q[1], c.q[2], c.q[3]})
  /\ \A i, j \in 1..3 : Dot(R(i), D) <= Dot(R(j), D) => Scaled10(Dot(R(i), D), N2) <= Scaled10(Dot(R(j), D), N2)
  /\ \A i \in 1..3 : N2 = 0 => Scaled10(Dot(R(i), D), N2) = 0
  \* |row . d| / |d| is at most |row|
  /\ \A i \in 1..3 : N2 # 0 =>
        LET s == Abs_(Scaled10(Dot(R(i), D), N2)) IN s * s <= (SqSum(R(i)) * 1048576) + 8192 + 64 * s
  \* swapping the roles of b and c changes nothing
  /\ D = VAdd(VSub(R(c.q[3]), R(c.q[1])), R(c.q[2]))
=============================================================================
