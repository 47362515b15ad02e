----------------------------- MODULE FFStorage ------------------------------
(* Storages: [kind |-> "nd", cols, rows] with rows a sequence of rows of     *)
(* float bit patterns, or a product-quantized matrix                         *)
(*   [kind |-> "pq", cols, sub, proj, norms, codes]                          *)
(* sub: quantizers x centroids x components; proj: <<>> or <<matrix>>;       *)
(* norms: <<>> or <<vector>>; codes: one sequence of centroid numbers (from  *)
(* 0) per row.                                                               *)
EXTENDS FFFloat

NRows(s) == IF s.kind = "nd" THEN Len(s.rows) ELSE Len(s.codes)

\* ---- product quantization -----------------------------------------------

\* concatenated centroids (float bits)
Centroids(s, i) ==
  FoldLeft(LAMBDA acc, m : acc \o s.sub[m][s.codes[i][m] + 1], <<>>,
           Tup([m \in 1..Len(s.sub) |-> m]))

AllInt(v) == \A k \in 1..Len(v) : IsIntF(v[k])

\* Reconstruction is decided exactly for: any bits without projection and norms;
\* normal floats with norms; integers with a projection.
Ints(v) == Tup([k \in 1..Len(v) |-> IntOf(v[k])])
Projected(s, v) ==    \* v * proj^T on integers
  Tup([k \in 1..Len(v) |-> FOfInt(Dot(Ints(v), Ints(s.proj[1][k])))])
PQRow(s, i) ==
  LET c == Centroids(s, i)
      p == IF s.proj = <<>> THEN c ELSE Projected(s, c)
  IN IF s.norms = <<>> THEN p
     ELSE Tup([k \in 1..Len(p) |-> FMul(p[k], s.norms[1][i])])

\* Can the rows be computed exactly here?
PQExact(s) ==
  LET flat(m) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, m)
      small(v) == \A k \in 1..Len(v) : IsIntF(v[k]) /\ Abs_(IntOf(v[k])) < 1024
  IN /\ \/ s.proj = <<>>
        \/ /\ \A m \in 1..Len(s.sub) : small(flat(s.sub[m]))
           /\ small(flat(s.proj[1]))
           /\ s.cols < 16
     /\ s.norms = <<>> \/ \A i \in 1..Len(s.codes) :
          LET c == Centroids(s, i)
              p == IF s.proj = <<>> THEN c ELSE Projected(s, c)
          IN \A k \in 1..Len(p) : FMulOk(p[k], s.norms[1][i])

RowSame(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : FSame(a[k], b[k])

Row(s, i) == IF s.kind = "nd" THEN s.rows[i] ELSE PQRow(s, i)
Rows(s) == IF s.kind = "nd" THEN s.rows ELSE Tup([i \in 1..NRows(s) |-> PQRow(s, i)])

\* ---- Python indexing ----------------------------------------------------

\* Positions (from 1) selected by start:stop:step on a sequence of length n;
\* start and stop are <<>> (absent) or <<value>>, step # 0.
SliceIdx(n, start, stop, step) ==
  LET clampP(x) == IF x < 0 THEN Max2(0, x + n) ELSE Min2(x, n)
      clampN(x) == IF x < 0 THEN Max2(-1, x + n) ELSE Min2(x, n - 1)
      a == IF step > 0 THEN (IF start = <<>> THEN 0 ELSE clampP(start[1]))
           ELSE (IF start = <<>> THEN n - 1 ELSE clampN(start[1]))
      b == IF step > 0 THEN (IF stop = <<>> THEN n ELSE clampP(stop[1]))
           ELSE (IF stop = <<>> THEN -1 ELSE clampN(stop[1]))
      k == IF step > 0 THEN (IF b > a THEN (b - a + step - 1) \div step ELSE 0)
           ELSE (IF a > b THEN (a - b + (-step) - 1) \div (-step) ELSE 0)
  IN Tup([j \in 1..k |-> a + (j - 1) * step + 1])

\* The same set of positions, declaratively.
InSlice(n, start, stop, step, p) ==     \* p from 0
  LET norm(x) == IF x < 0 THEN x + n ELSE x
      a == IF start = <<>> THEN (IF step > 0 THEN 0 ELSE n - 1)
           ELSE IF step > 0 THEN Min2(n, Max2(0, norm(start[1])))
           ELSE Min2(n - 1, Max2(-1, norm(start[1])))
      past == IF stop = <<>> THEN FALSE
              ELSE IF step > 0 THEN p >= norm(stop[1]) ELSE p <= norm(stop[1])
  IN /\ p \in 0..(n - 1)
     /\ (p - a) % Abs_(step) = 0
     /\ IF step > 0 THEN p >= a ELSE p <= a
     /\ ~past

Pick(s, idx) ==      \* rows at the given positions
  IF s.kind = "nd" THEN [s EXCEPT !.rows = Tup([j \in 1..Len(idx) |-> s.rows[idx[j]]])]
  ELSE [s EXCEPT !.codes = Tup([j \in 1..Len(idx) |-> s.codes[idx[j]]]),
                 !.norms = IF s.norms = <<>> THEN <<>>
                           ELSE <<Tup([j \in 1..Len(idx) |-> s.norms[1][idx[j]]])>>]

\* an integer index: position from 1, or 0 when out of range
IntIdx(n, k) == IF k >= 0 /\ k < n THEN k + 1 ELSE IF k < 0 /\ k >= -n THEN k + n + 1 ELSE 0
=============================================================================
