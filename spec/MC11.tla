-------------------------------- MODULE MC11 --------------------------------
(* Design check: construction and assignment as the program text does them - *)
(* one check after the other, the first failing one raises, the fields are   *)
(* written when all have passed - keep exactly the parts last accepted, in   *)
(* every interleaving with writing, loading and conversion.                  *)
EXTENDS FFSession
CONSTANTS Vs, Ss, Ns, Ms,
          Late       \* fields are written when all checks have passed; otherwise before the last one
VARIABLES st,      \* the specified state
          obj,     \* fields of the objects, as implemented
          disk,    \* fields as serialized
          run      \* the operation under way: <<>> or <<[op, k]>>
vars == <<st, obj, disk, run>>

OpsHere == {op \in Ops("new") : op.a[2] \in Vs /\ op.a[3] \in Ss /\ op.a[4] \in Ns /\ op.a[5] \in Ms}
     \cup {op \in Ops("norms") : op.a[2] \in Ns} \cup {op \in Ops("meta") : op.a[2] \in Ms}
     \cup Ops("explicit") \cup {op \in Ops("write") : TRUE} \cup Ops("load")

Init == st = Empty /\ obj = Empty.slot /\ disk = Empty.file /\ run = <<>>
Begin == /\ run = <<>>
         /\ \E op \in OpsHere : Enabled(st, op) = TRUE /\ run' = <<[op |-> op, k |-> 1]>>
         /\ UNCHANGED <<st, obj, disk>>

\* The checks of an operation in program order; an earlier one guards the later ones.
Checks(op) ==
  LET a == op.a
      f == obj[a[1]][1]
      norms(v, s, n) == << n = 0 \/ NrmPool[n].ok, n = 0 \/ StoPool[s].rows >= NrmPool[n].len,
                           n = 0 \/ NrmPool[n].len = VocPool[v].nw >>
  IN CASE op.act = "new" ->
            <<a[3] # 0 /\ StoPool[a[3]].ok, a[2] # 0 /\ VocPool[a[2]].ok>>
            \o (IF a[3] = 0 \/ a[2] = 0 THEN <<>>
                ELSE <<StoPool[a[3]].rows = VocPool[a[2]].bound>> \o norms(a[2], a[3], a[4]))
            \o <<a[5] = 0 \/ MetPool[a[5]].ok>>
       [] op.act = "norms" -> norms(f.v, f.s, a[2])
       [] op.act = "meta"  -> <<a[2] = 0 \/ MetPool[a[2]].ok>>
       [] op.act = "explicit" -> <<KindOf(obj[a[2]][1]) \in {"bucket", "fasttext"}>>
       [] OTHER -> <<>>

Write_(op) ==
  LET a == op.a IN
  CASE op.act = "new" -> obj' = [obj EXCEPT ![a[1]] = <<[v |-> a[2], s |-> a[3], n |-> a[4], m |-> a[5], x |-> 0]>>] /\ UNCHANGED disk
    [] op.act = "norms" -> obj' = [obj EXCEPT ![a[1]][1].n = a[2]] /\ UNCHANGED disk
    [] op.act = "meta" -> obj' = [obj EXCEPT ![a[1]][1].m = a[2]] /\ UNCHANGED disk
    [] op.act = "explicit" -> obj' = [obj EXCEPT ![a[1]] = <<[obj[a[2]][1] EXCEPT !.x = 1, !.m = 0]>>] /\ UNCHANGED disk
    [] op.act = "write" -> disk' = [disk EXCEPT ![a[2]] = obj[a[1]]] /\ UNCHANGED obj
    [] op.act = "load" -> obj' = [obj EXCEPT ![a[1]] = disk[a[2]]] /\ UNCHANGED disk

Step == /\ run # <<>>
        /\ LET op == run[1].op
               k == run[1].k
               c == Checks(op)
           IN IF k > Len(c)
              THEN Write_(op) /\ run' = <<>> /\ st' = After(st, op)
              ELSE IF c[k] THEN run' = <<[run[1] EXCEPT !.k = k + 1]>> /\ UNCHANGED <<st, obj, disk>>
              ELSE IF k = Len(c) /\ ~Late THEN Write_(op) /\ run' = <<>> /\ st' = After(st, op)
              ELSE run' = <<>> /\ st' = After(st, op) /\ UNCHANGED <<obj, disk>>
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars

Val(o) == IF o = <<>> THEN TRUE
          ELSE LET f == o[1] IN PartsFit(f.v, f.s) /\ NormsFit(f.v, f.n) /\ MetaFits(f.m)
Fit == \A k \in Slots : Val(obj[k])
Kept == obj = st.slot /\ \A k \in 1..NFILE : disk[k] = <<>> <=> st.file[k] = <<>>
Order == \A k \in Slots : obj[k] # <<>> =>
           LET c == Chunks(obj[k][1]) IN
           /\ Len(c) \in 2..4
           /\ obj[k][1].m # 0 => c[1] = "meta"
           /\ obj[k][1].n # 0 => c[Len(c)] = "norms"
Inv == Fit /\ Kept /\ Order

MC1 == 1
MC2 == 2
=============================================================================
