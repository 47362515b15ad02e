-------------------------------- MODULE MC15 --------------------------------
(* Design check: rows of quantized storage commute with slicing: a slice of  *)
(* a slice, a single row and a picked list of rows give the same vectors.    *)
EXTENDS FFStorage
CONSTANT N
VARIABLE c
Sl == {[a |-> a, b |-> b, c |-> s] : a \in {<<>>, <<-2>>, <<1>>, <<9>>}, b \in {<<>>, <<-1>>, <<2>>, <<-9>>}, s \in {1, 2, -1, -2}}
Init == c \in {[x |-> x, y |-> <<>>, proj |-> p, norms |-> q] : x \in Sl, p \in BOOLEAN, q \in BOOLEAN}
Next == c.y = <<>> /\ c' \in {[c EXCEPT !.y = <<y>>] : y \in Sl}
I(n) == FOfInt(n)
S == [kind |-> "pq", cols |-> 2,
      sub |-> << << <<I(1)>>, <<I(-2)>> >>, << <<I(3)>>, <<I(5)>> >> >>,
      proj |-> IF c.proj THEN << << <<I(1), I(2)>>, <<I(0), I(-1)>> >> >> ELSE <<>>,
      norms |-> IF c.norms THEN <<Tup([i \in 1..N |-> I(i)])>> ELSE <<>>,
      codes |-> Tup([i \in 1..N |-> <<i % 2, (i \div 2) % 2>>])]
Idx(n, x) == SliceIdx(n, x.a, x.b, x.c)
Inv == c.y # <<>> =>
  LET i == Idx(N, c.x)
      t == Pick(S, i)
      j == Idx(Len(i), c.y[1])
      u == Pick(t, j)
  IN /\ PQExact(S)
     /\ NRows(t) = Len(i) /\ NRows(u) = Len(j)
     /\ \A k \in 1..Len(i) : Row(t, k) = Row(S, i[k])
     /\ \A k \in 1..Len(j) : Row(u, k) = Row(S, i[j[k]])
     /\ \A k \in 1..N : /\ Len(Row(S, k)) = 2
                        /\ ~c.proj => Row(S, k)[1] = FMul(S.sub[1][S.codes[k][1] + 1][1], IF c.norms THEN I(k) ELSE I(1))
     /\ \A k \in -N..(N - 1) : IntIdx(N, k) \in 1..N
     /\ IntIdx(N, N) = 0 /\ IntIdx(N, -N - 1) = 0
     /\ \A k \in 1..N : IntIdx(N, k - 1) = k /\ IntIdx(N, k - 1 - N) = k
=============================================================================
