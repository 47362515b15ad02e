------------------------------- MODULE MC25b --------------------------------
(* Operations of a session that do not conflict commute: the same ones are   *)
(* possible and accepted in either order, and they lead to the same state.   *)
(* So a burst of them has one outcome whatever the order of completion.      *)
(* Care: conflicts are those of FFSession; the flawed variant forgets that   *)
(* iterations read the embeddings they run over.                             *)
EXTENDS FFSession
CONSTANTS Acts, Care, Vs
VARIABLES st, last

Val(v, s, n, m, x) == [v |-> v, s |-> s, n |-> n, m |-> m, x |-> x]
SlotStates == {<<>>} \cup {<<Val(v[1], v[2], v[3], v[4], 0)>> : v \in Vs}
V3 == {<<1, 1, 0, 0>>, <<3, 3, 2, 1>>, <<4, 6, 1, 0>>}
V2 == {<<1, 1, 0, 0>>, <<4, 6, 1, 0>>}
FileStates == {<<>>, <<[val |-> Val(4, 6, 1, 0, 0), fmt |-> "fifu"]>>, <<[val |-> Val(1, 1, 0, 0, 0), fmt |-> "text"]>>}
IterStates(slots) == {<<>>} \cup {<<[slot |-> k, pos |-> p]>> : k \in {j \in 1..2 : slots[j] # <<>>}, p \in 0..1}
Init == /\ \E s1, s2 \in SlotStates, f1, f2 \in FileStates :
             LET slots == <<s1, s2, <<>> >> IN
             \E i1, i2 \in IterStates(slots) :
               st = [slot |-> slots, file |-> <<f1, f2>>, iter |-> <<i1, i2>>]
        /\ last = <<>>
Next == UNCHANGED <<st, last>>
\* fewer arguments: what matters are slots, files and iterators
Few(op) == CASE op.act = "write" -> op.a[3] \in {1, 5}
             [] op.act = "look" -> op.a[2] = 1 /\ op.a[3] = 2
             [] OTHER -> TRUE
All == {op \in UNION {Ops(x) : x \in Acts} : Few(op)}
Clash(x, y) == Conflict(st, x, y) /\ (Care \/ ~({x.act, y.act} \cap {"inext", "istart"} # {} /\ {x.act, y.act} \cap {"load", "explicit"} # {}))
Commute ==
  LET en == {op \in All : Enabled(st, op)} IN
  \A x, y \in en :
    (x # y /\ Threadable(x) /\ Threadable(y) /\ ~Clash(x, y)) =>
      LET sx == After(st, x)
          sy == After(st, y)
      IN /\ Enabled(sx, y) /\ Enabled(sy, x)
         /\ Accepted(sx, y) = Accepted(st, y) /\ Accepted(sy, x) = Accepted(st, x)
         /\ After(sx, y) = After(sy, x)
=============================================================================
