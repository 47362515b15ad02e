------------------------------ MODULE GenCopy -------------------------------
(* Random histories of copies and changes (tlc -simulate).                   *)
EXTENDS FFCopy, Json
CONSTANTS Depth
Kinds == <<"new", "copy", "copy", "copy", "poke", "poke", "poke", "poke", "setn", "setm">>
VARIABLES st, hist
R(S) == RandomElement(S)
Init == st = Empty /\ hist = <<>>
Do == /\ Len(hist) < Depth
      /\ \E op \in {IF hist = <<>> THEN [act |-> "new", a |-> <<1, R(1..NBASE)>>] ELSE R(Ops(Kinds[R(1..Len(Kinds))]))} :
           IF Enabled(st, op) THEN st' = After(st, op) /\ hist' = Append(hist, op) ELSE UNCHANGED <<st, hist>>
Emit == Len(hist) = Depth /\ PrintT(ToJson(hist)) /\ hist' = <<>> /\ st' = Empty
Next == Do \/ Emit
=============================================================================
