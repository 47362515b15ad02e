----------------------------- MODULE GenSession ------------------------------
(* Random sessions (tlc -simulate): the kind of operation is drawn first, so *)
(* that kinds with many arguments do not crowd out the others, then one      *)
(* operation of the kind; operations that are not enabled are drawn again.   *)
EXTENDS FFSession, Json
CONSTANTS Depth, Kinds
Kinds11 == <<"new", "big", "none", "fit", "fit", "norms", "norms", "norms", "meta", "meta", "write", "load", "explicit", "inext", "istart">>
Kinds12 == <<"fit", "big", "none", "norms", "meta", "explicit", "write", "export", "export", "load", "load", "probe", "istart", "inext", "inext",
             "inext", "look", "look", "look", "look", "look", "sim", "sim", "vsim", "ana", "ana", "isin", "voc", "slice", "bad">>
Kinds25 == <<"fit", "big", "none", "norms", "explicit", "explicit", "write", "export", "load", "probe", "istart", "istart", "inext", "inext",
             "inext", "inext", "look", "look", "look", "look", "look", "sim", "sim", "sim", "vsim", "ana", "ana", "isin", "voc", "voc", "slice">>
CONSTANT MaxBurst          \* operations that run at the same time; 1: one after the other
VARIABLES st, hist, burst  \* burst: where the present one began, and in which state
vars == <<st, hist, burst>>

R(S) == RandomElement(S)
Draw(act) ==
  CASE act = "new"  -> [act |-> act, a |-> <<R(Slots), R(0..NVOC), R(0..NSTO), R(0..NNRM), R(0..Len(MetPool))>>]
    [] act = "fit"  -> \* a construction that is accepted
         LET v == R(1..6) IN
         [act |-> "new", a |-> <<IF Len(hist) < NSLOT THEN Len(hist) + 1 ELSE R(Slots), v,
                                 R({s \in 1..NSTO : PartsFit(v, s)}), R({n \in 0..NNRM : NormsFit(v, n)}), R(0..3)>>]
    [] act = "big"  -> [act |-> "new", a |-> <<R(Slots), NVOC + 1, NSTO + 1, R({0, NNRM + 1}), R(0..3)>>]
    [] act = "none" -> LET v == R({NVOC + 2, NVOC + 3}) IN
         [act |-> "new", a |-> <<R(Slots), v, R({s \in 1..Len(StoPool) : PartsFit(v, s)}), R({0, NNRM + 2}), R(0..3)>>]
    [] act = "norms" -> [act |-> act, a |-> <<R(Slots), R(0..Len(NrmPool))>>]
    [] act = "ana"  -> [act |-> act, a |-> <<R(Slots), R(1..4), R(2..NWORD), R({1, 3, 6}), R({1, 3}), R(0..NSKIP)>>]
    [] OTHER        -> R(Ops(act))

\* Operations of a burst conflict with none of the others, judged in the state it began in.
Joins(op) == /\ MaxBurst > 1 /\ hist # <<>> /\ Len(hist) - burst.from < MaxBurst
             /\ Threadable(op) /\ Enabled(burst.st, op)
             /\ \A k \in (burst.from + 1)..Len(hist) : Threadable(hist[k]) /\ ~Conflict(burst.st, hist[k], op)
Mark(op, b) == [act |-> op.act, a |-> op.a, b |-> b]
Init == st = Empty /\ hist = <<>> /\ burst = [from |-> 0, st |-> Empty]
Do == /\ Len(hist) < Depth
      /\ \E op \in {Draw(IF Len(hist) < NSLOT THEN "fit" ELSE Kinds[R(1..Len(Kinds))])} :
           IF Enabled(st, op)
           THEN /\ st' = After(st, op)
                /\ IF Joins(op) THEN hist' = Append(hist, Mark(op, burst.from)) /\ burst' = burst
                   ELSE hist' = Append(hist, Mark(op, Len(hist))) /\ burst' = [from |-> Len(hist), st |-> st]
           ELSE UNCHANGED vars
Emit == /\ Len(hist) = Depth
        /\ PrintT(ToJson(hist))
        /\ hist' = <<>> /\ st' = Empty      \* and on with another session
        /\ burst' = [from |-> 0, st |-> Empty]
Next == Do \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
