-------------------------------- MODULE MC22 --------------------------------
(* Design check of the tools as processes. Selection reads the requested     *)
(* words one by one and stops at the first one that cannot be represented    *)
(* (or skips it); answering reads queries one by one and appends what it     *)
(* prints. Whatever the order of reading, the outcome is the one C22 states, *)
(* and the printed lines can be told apart by query.                         *)
EXTENDS FFBase
CONSTANTS Words, MaxLines
VARIABLES known, lines, ignore, todo, done, st, k, printed, told

Ans(w) == w \in known
Init == /\ known \in SUBSET Words /\ ignore \in BOOLEAN /\ k \in 0..2
        /\ lines = <<>> /\ todo = {} /\ done = {} /\ st = "read" /\ printed = <<>> /\ told = <<>>
Read == /\ st = "read" /\ Len(lines) < MaxLines
        /\ \E w \in Words : /\ lines' = Append(lines, w)
                            /\ todo' = todo \cup {w}
                            \* the query tools answer as they read
                            /\ IF Ans(w) THEN /\ printed' = printed \o Tup([j \in 1..Min2(k, Cardinality(known \ {w})) |-> <<Len(lines) + 1, j>>])
                                              /\ told' = told
                               ELSE told' = Append(told, w) /\ printed' = printed
        /\ UNCHANGED <<known, ignore, done, st, k>>
Start == st = "read" /\ st' = "select" /\ UNCHANGED <<known, lines, ignore, todo, done, k, printed, told>>
Take == /\ st = "select" /\ todo # {}
        /\ \E w \in todo :
             /\ todo' = todo \ {w}
             /\ IF Ans(w) THEN done' = done \cup {w} /\ st' = st
                ELSE done' = done /\ st' = IF ignore THEN st ELSE "failed"
        /\ UNCHANGED <<known, lines, ignore, k, printed, told>>
Finish == st = "select" /\ todo = {} /\ st' = "written" /\ UNCHANGED <<known, lines, ignore, todo, done, k, printed, told>>
Next == Read \/ Start \/ Take \/ Finish

Want == Elems(lines)
Outcome == /\ st = "written" => done = Want \cap known /\ (ignore \/ Want \subseteq known)
           /\ st = "failed" => ~ignore /\ ~(Want \subseteq known)
\* segmentation by query: the i-th answered query owns the next min(k, eligible) lines
Seg(i) == SelectSeq(printed, LAMBDA l : l[1] = i)
Segments == /\ \A i \in 1..Len(lines) : Len(Seg(i)) = IF Ans(lines[i]) THEN Min2(k, Cardinality(known \ {lines[i]})) ELSE 0
            /\ \A a, b \in 1..Len(printed) : a < b => printed[a][1] <= printed[b][1]
            /\ Elems(told) = Want \ known
\* --include: parts not listed are excluded, by word
Skip(q, inc) == {q[j] : j \in {j \in 1..3 : <<"a", "b", "c">>[j] \notin inc}}
ASSUME \A q \in [1..3 -> Words] : \A inc \in SUBSET {"a", "b", "c"} :
         /\ inc = {} => Skip(q, inc) = {q[1], q[2], q[3]}
         /\ inc = {"a", "b", "c"} => Skip(q, inc) = {}
         /\ \A w \in Words : w \in Skip(q, inc) <=> \E j \in 1..3 : q[j] = w /\ <<"a", "b", "c">>[j] \notin inc
=============================================================================
