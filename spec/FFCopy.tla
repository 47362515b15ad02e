------------------------------- MODULE FFCopy -------------------------------
(* Embeddings and their copies. An object holds cells: the storage, the      *)
(* norms and the metadata it shows. A copy shows what the original showed.   *)
(* A deep copy, a pickled and restored one, or one that went through a file  *)
(* has cells of its own, whatever happens to one of the two afterwards does  *)
(* not show in the other. A shallow copy may share cells, but assigning      *)
(* other norms or metadata to one object never reaches another.              *)
EXTENDS FFBase

NOBJ == 3
NBASE == 4               \* embeddings to begin with, see Bases
Objs == 1..NOBJ
\* which of them have norms, metadata; 3 is quantized, 4 is mapped from a file
Bases == << [n |-> TRUE, m |-> TRUE], [n |-> FALSE, m |-> TRUE], [n |-> TRUE, m |-> FALSE], [n |-> TRUE, m |-> TRUE] >>
Ways == <<"shallow", "deep", "pickle", "file">>

\* a cell: what it began as, and what was put into its two places since
Cell(b) == <<b, 0, 0>>
NoCell == 0

\* obj: <<>> or <<[b, c]>>: vocabulary, and the cells of storage, norms, metadata (0: none)
Empty == [obj |-> Tup([k \in Objs |-> <<>>]), cell |-> <<>>]

Content(st, c) == IF c = NoCell THEN <<0, 0, 0>> ELSE st.cell[c]
Uses(st, c) == {k \in Objs : st.obj[k] # <<>> /\ c \in Elems(st.obj[k][1].c)}

\* bs: what the new cells begin as, <<>> for none; gives state and cells
Alloc(st, bs) ==
  LET add(acc, x) == IF x = <<>> THEN [s |-> acc.s, c |-> Append(acc.c, NoCell)]
                     ELSE [s |-> [acc.s EXCEPT !.cell = Append(@, x)], c |-> Append(acc.c, Len(acc.s.cell) + 1)]
  IN FoldLeft(add, [s |-> st, c |-> <<>>], bs)

Enabled(st, op) ==
  LET a == op.a IN
  CASE op.act = "new"  -> TRUE
    [] op.act = "copy" -> st.obj[a[2]] # <<>>
    [] op.act \in {"setn", "setm"} -> st.obj[a[1]] # <<>>
    \* whether shallow copies share is left open: shared cells are not changed in place
    [] op.act = "poke" -> /\ st.obj[a[1]] # <<>>
                          /\ st.obj[a[1]][1].c[a[2]] # NoCell
                          /\ Uses(st, st.obj[a[1]][1].c[a[2]]) = {a[1]}

Put(st, k, b, c) == [st EXCEPT !.obj[k] = <<[b |-> b, c |-> c]>>]
After(st, op) ==
  LET a == op.a IN
  CASE op.act = "new"  ->
         LET B == Bases[a[2]]
             n == Alloc(st, <<Cell(a[2]), IF B.n THEN Cell(a[2]) ELSE <<>>, IF B.m THEN Cell(a[2]) ELSE <<>> >>)
         IN Put(n.s, a[1], a[2], n.c)
    [] op.act = "copy" ->
         LET o == st.obj[a[2]][1]
             n == Alloc(st, Tup([p \in 1..3 |-> IF o.c[p] = NoCell THEN <<>> ELSE st.cell[o.c[p]]]))
         IN IF a[3] = 1 THEN Put(st, a[1], o.b, o.c) ELSE Put(n.s, a[1], o.b, n.c)
    [] op.act \in {"setn", "setm"} ->
         LET o == st.obj[a[1]][1]
             n == Alloc(st, <<IF a[2] = 0 THEN <<>> ELSE Cell(100 * o.b + 10 + a[2])>>)
             p == IF op.act = "setn" THEN 2 ELSE 3
         IN Put(n.s, a[1], o.b, [o.c EXCEPT ![p] = n.c[1]])
    [] op.act = "poke" -> [st EXCEPT !.cell[st.obj[a[1]][1].c[a[2]]][a[3] + 1] = a[4]]

Ops(act) ==
  CASE act = "new"  -> {[act |-> act, a |-> <<k, b>>] : k \in Objs, b \in 1..NBASE}
    [] act = "copy" -> {[act |-> act, a |-> <<k, j, h>>] : k \in Objs, j \in Objs, h \in 1..Len(Ways)}
    [] act = "setn" -> {[act |-> act, a |-> <<k, x>>] : k \in Objs, x \in 0..2}
    [] act = "setm" -> {[act |-> act, a |-> <<k, x>>] : k \in Objs, x \in 0..2}
    [] act = "poke" -> {[act |-> act, a |-> <<k, p, pl, v>>] : k \in Objs, p \in 1..3, pl \in 1..2, v \in 1..2}

\* what an object shows: one content for each of vocabulary, storage, norms, metadata
View(st, k) == LET o == st.obj[k][1] IN << Cell(o.b), Content(st, o.c[1]), Content(st, o.c[2]), Content(st, o.c[3]) >>
=============================================================================
