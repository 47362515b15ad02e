-------------------------------- MODULE MC26 --------------------------------
(* Design check of copying: an implementation-shaped heap in which a deep    *)
(* copy walks the parts one after the other, against FFCopy's atomic step.   *)
(* Deep: the parts that a deep copy really copies; the flawed variant leaves *)
(* one shared.                                                               *)
EXTENDS FFCopy
CONSTANTS Deep, MaxOps
VARIABLES st,      \* specified
          heap,    \* contents, as implemented
          ref,     \* for each object <<>> or <<[b, c]>> into the heap
          run,     \* <<>> or <<[op, c]>>: a copy under way, with the parts copied so far
          n
vars == <<st, heap, ref, run, n>>
Init == st = Empty /\ heap = <<>> /\ ref = Empty.obj /\ run = <<>> /\ n = 0

\* everything but copies: one step
Small == {op \in Ops("new") : op.a[1] < 3 /\ op.a[2] < 3} \cup {op \in Ops("setn") : op.a[1] < 3 /\ op.a[2] < 2}
         \cup {op \in Ops("poke") : op.a[1] < 3 /\ op.a[3] = 1 /\ op.a[4] = 1}
Plain == /\ run = <<>> /\ n < MaxOps
         /\ \E op \in Small :
              /\ Enabled(st, op)
              /\ st' = After(st, op)
              /\ CASE op.act = "new" ->
                        LET B == Bases[op.a[2]]
                            i == Alloc([cell |-> heap], <<Cell(op.a[2]), IF B.n THEN Cell(op.a[2]) ELSE <<>>, IF B.m THEN Cell(op.a[2]) ELSE <<>> >>)
                        IN heap' = i.s.cell /\ ref' = [ref EXCEPT ![op.a[1]] = <<[b |-> op.a[2], c |-> i.c]>>]
                   [] op.act = "setn" ->
                        LET i == Alloc([cell |-> heap], <<IF op.a[2] = 0 THEN <<>> ELSE Cell(100 * ref[op.a[1]][1].b + 10 + op.a[2])>>)
                        IN heap' = i.s.cell /\ ref' = [ref EXCEPT ![op.a[1]][1].c[2] = i.c[1]]
                   [] op.act = "poke" ->
                        heap' = [heap EXCEPT ![ref[op.a[1]][1].c[op.a[2]]][op.a[3] + 1] = op.a[4]] /\ ref' = ref
              /\ run' = run /\ n' = n + 1
Begin == /\ run = <<>> /\ n < MaxOps
         /\ \E op \in {o \in Ops("copy") : o.a[1] < 3 /\ o.a[2] < 3 /\ o.a[3] < 3} :
              Enabled(st, op) /\ run' = <<[op |-> op, c |-> <<>>]>>
         /\ n' = n + 1 /\ UNCHANGED <<st, heap, ref>>
Walk == /\ run # <<>>
        /\ LET op == run[1].op
               o == ref[op.a[2]][1]
               p == Len(run[1].c) + 1
           IN IF p > 3
              THEN /\ ref' = [ref EXCEPT ![op.a[1]] = <<[b |-> o.b, c |-> run[1].c]>>]
                   /\ st' = After(st, op) /\ run' = <<>> /\ UNCHANGED <<heap, n>>
              ELSE IF op.a[3] = 1 \/ p \notin Deep \/ o.c[p] = NoCell
              THEN run' = <<[run[1] EXCEPT !.c = Append(@, o.c[p])]>> /\ UNCHANGED <<st, heap, ref, n>>
              ELSE /\ heap' = Append(heap, heap[o.c[p]])
                   /\ run' = <<[run[1] EXCEPT !.c = Append(@, Len(heap) + 1)]>> /\ UNCHANGED <<st, ref, n>>
Next == Plain \/ Begin \/ Walk

\* the objects show what is specified
Shows == \A k \in Objs : /\ (ref[k] = <<>>) <=> (st.obj[k] = <<>>)
                         /\ ref[k] # <<>> => \A p \in 1..3 :
                              (IF ref[k][1].c[p] = NoCell THEN <<0, 0, 0>> ELSE heap[ref[k][1].c[p]]) = Content(st, st.obj[k][1].c[p])
\* and only shallow copies share
Apart == \A j, k \in Objs : \A p \in 1..3 :
           j # k /\ ref[j] # <<>> /\ ref[k] # <<>> /\ ref[j][1].c[p] # NoCell /\ ref[j][1].c[p] = ref[k][1].c[p]
           => st.obj[j][1].c[p] = st.obj[k][1].c[p]
=============================================================================
