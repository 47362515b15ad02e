-------------------------------- MODULE MC25 --------------------------------
(* Design check of queries by several threads. A query fetches rows of the   *)
(* shared embeddings into a temporary, computes on it and returns it; every  *)
(* step may be interleaved with those of the other threads.                  *)
(* Temp: "own" - every call has its own temporary; "scratch" - one buffer of *)
(* the embeddings serves all calls; "cache" - the last answer is kept with   *)
(* its question, set and read without further ado. TLC refutes the last two. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Words, Calls, Temp
VARIABLES pc, q, own, scratch, key, done, left

vars == <<pc, q, own, scratch, key, done, left>>
Data(w) == 10 * w
Answer(w) == Data(w) + 1
NoKey == 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ q = [t \in Threads |-> NoKey] /\ own = [t \in Threads |-> 0]
        /\ scratch = 0 /\ key = NoKey /\ done = <<>> /\ left = [t \in Threads |-> Calls]
Tmp(t) == IF Temp = "own" THEN own[t] ELSE scratch
Set(t, v) == IF Temp = "own" THEN own' = [own EXCEPT ![t] = v] /\ UNCHANGED scratch
             ELSE scratch' = v /\ UNCHANGED own
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E w \in Words : q' = [q EXCEPT ![t] = w]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ pc' = [pc EXCEPT ![t] = "fetch"]
           /\ UNCHANGED <<own, scratch, key, done>>
Fetch(t) == /\ pc[t] = "fetch"
            /\ IF Temp = "cache" /\ key = q[t] THEN pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<own, scratch, key>>
               ELSE /\ Set(t, Data(q[t]))
                    /\ key' = IF Temp = "cache" THEN q[t] ELSE key
                    /\ pc' = [pc EXCEPT ![t] = "compute"]
            /\ UNCHANGED <<q, done, left>>
Compute(t) == /\ pc[t] = "compute" /\ Set(t, Tmp(t) + 1)
              /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<q, key, done, left>>
Return(t) == /\ pc[t] = "return" /\ done' = Append(done, <<q[t], Tmp(t)>>)
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<q, own, scratch, key, left>>
Next == \E t \in Threads : Call(t) \/ Fetch(t) \/ Compute(t) \/ Return(t)
\* every answer is the one a single thread would get
Sequential == \A k \in 1..Len(done) : done[k][2] = Answer(done[k][1])
=============================================================================
