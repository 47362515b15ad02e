------------------------------- MODULE FFRank --------------------------------
(* The selection behind similarity and analogy queries, as an algorithm:     *)
(* score all words, take any k + |skipped known words| of the best, drop the *)
(* skipped ones, sort, cut at k. Checked against RankFails.                  *)
EXTENDS FFEmbed
CONSTANTS NW, Scores, MaxK,
          Spare      \* room for the skipped words among the candidates; without it TLC finds too few answers
VARIABLES score, skip, k, cand, res, pc
vars == <<score, skip, k, cand, res, pc>>

Words == Tup([i \in 1..NW |-> <<96 + i>>])
Strange == <<122, 122>>           \* a skipped string that is not a known word
E == [meta |-> <<>>, norms |-> <<>>, vocab |-> <<[kind |-> "simple", words |-> Words]>>,
      storage |-> <<[kind |-> "nd", cols |-> 1, rows |-> Tup([i \in 1..NW |-> <<FOfInt(score[i])>>])]>>]
SkipIdx == {i \in 1..NW : Words[i] \in skip}

Init == /\ score \in [1..NW -> Scores]
        /\ skip \in SUBSET (Elems(Words) \cup {Strange})
        /\ k \in 0..MaxK
        /\ cand = {} /\ res = <<>> /\ pc = "select"

\* any set of the best k + |skips|: ties are broken arbitrarily
Select == /\ pc = "select"
          /\ \E S \in SUBSET (1..NW) :
               /\ Cardinality(S) = Min2(NW, IF Spare THEN k + Cardinality(SkipIdx) ELSE k)
               /\ \A i \in S, j \in (1..NW) \ S : score[i] >= score[j]
               /\ cand' = S \ SkipIdx
          /\ pc' = "take" /\ UNCHANGED <<score, skip, k, res>>
\* one of the best remaining candidates at a time
Take == /\ pc = "take" /\ Len(res) < k /\ cand # {}
        /\ \E i \in cand : /\ \A j \in cand : score[i] >= score[j]
                           /\ res' = Append(res, <<Words[i], FOfInt(score[i])>>)
                           /\ cand' = cand \ {i}
        /\ UNCHANGED <<score, skip, k, pc>>
Done == /\ pc = "take" /\ (Len(res) = k \/ cand = {})
        /\ pc' = "done" /\ UNCHANGED <<score, skip, k, cand, res>>
Next == Select \/ Take \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct == pc = "done" =>
  RankFails(E, res, k, skip, LAMBDA i : score[i], 0, LAMBDA i, b : b = FOfInt(score[i])) = {}
Ends == <>(pc = "done")
=============================================================================
