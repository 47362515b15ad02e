-------------------------------- MODULE MC23 --------------------------------
(* Design check of a buffered writer on a destination of limited capacity.   *)
(* The application emits its output in pieces; a buffer passes bytes on when *)
(* it is full and when the file is closed; the destination takes what fits   *)
(* and reports the rest. An error stops the application; closing still tries *)
(* to pass on what is buffered. Success means that everything arrived.       *)
(* Reports: which errors reach the caller ("piece": while emitting, "close": *)
(* at the end). The flawed variant forgets those of the last flush.          *)
EXTENDS FFFiles
CONSTANTS Size, MaxPiece, MaxBuf, Reports
VARIABLES cap, bufcap, sent, buf, disk, st, err

vars == <<cap, bufcap, sent, buf, disk, st, err>>
Whole == Tup([i \in 1..Size |-> i])
Old == {Absent, <<>>, <<9, 9>>}
VARIABLE before
Init == /\ cap \in 0..(Size + 1) /\ bufcap \in 1..MaxBuf /\ before \in Old
        /\ sent = 0 /\ buf = <<>> /\ disk = before /\ st = "start" /\ err = FALSE
\* opening truncates
Open == st = "start" /\ st' = "write" /\ disk' = <<>> /\ UNCHANGED <<cap, bufcap, sent, buf, err, before>>
\* the destination takes a prefix of what it is given
Take(b) == LET n == Min2(Len(b), cap - Len(disk)) IN [disk |-> disk \o SubSeq(b, 1, n), all |-> n = Len(b)]
Emit == /\ st = "write" /\ sent < Size
        /\ \E n \in 1..Min2(MaxPiece, Size - sent) :
             LET b == buf \o SubSeq(Whole, sent + 1, sent + n) IN
             /\ sent' = sent + n
             /\ IF Len(b) < bufcap THEN buf' = b /\ UNCHANGED <<disk, st, err>>
                ELSE LET t == Take(b) IN
                     /\ disk' = t.disk /\ buf' = <<>>
                     /\ IF t.all \/ "piece" \notin Reports THEN UNCHANGED <<st, err>> ELSE st' = "close" /\ err' = TRUE
        /\ UNCHANGED <<cap, bufcap, before>>
Done == st = "write" /\ sent = Size /\ st' = "close" /\ UNCHANGED <<cap, bufcap, sent, buf, disk, err, before>>
Close == /\ st = "close" /\ st' = "end"
         /\ LET t == Take(buf) IN
            /\ disk' = t.disk /\ buf' = <<>>
            /\ err' = (err \/ (~t.all /\ "close" \in Reports))
         /\ UNCHANGED <<cap, bufcap, sent, before>>
Next == Open \/ Emit \/ Done \/ Close
Outcome == st = "end" => WriteFails(Whole, cap, before, ~err, disk) = {}
Prefix == st # "start" => disk = SubSeq(Whole, 1, Len(disk))
=============================================================================
