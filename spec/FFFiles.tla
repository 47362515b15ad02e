------------------------------ MODULE FFFiles -------------------------------
(* Files as the operating system keeps them: what writing `whole` to a       *)
(* destination with room for `cap` bytes may do, and how a file is named.    *)
EXTENDS FFBase

\* A destination that does not exist is <<-1>>.
Absent == <<-1>>

\* Only complete outputs pass as written.
MustSucceed(whole, cap) == cap >= Len(whole)

\* What a write that was reported as failed may leave: what was there, nothing,
\* or a part of the output that lacks at least its last byte. (capacity: no file grows beyond cap)
MayLeave(whole, cap, before, left) ==
  \/ left = before
  \/ left = Absent
  \/ /\ Len(left) <= cap /\ Len(left) < Len(whole)
     /\ left = SubSeq(whole, 1, Len(left))

\* The outcome of one write: ok (reported as success), left on disk.
WriteFails(whole, cap, before, ok, left) ==
  IF MustSucceed(whole, cap)
  THEN Chk("a write with enough room failed", ok)
       \cup Chk("a write reported as success left another file", ok => left = whole)
  ELSE Chk("an incomplete write was reported as success", ~ok)
       \cup Chk("a failed write left something that is not part of its output", MayLeave(whole, cap, before, left))

\* Descriptors of a call: none beyond those of before when it has returned or raised, except what a
\* mapped result keeps as long as it is there; none of the caller's is closed (unless it was passed).
HeldFails(mapped, held, left, gone, warned) ==
       Chk("a file is still open when the call has ended", mapped \/ held = 0)
  \cup Chk("a file stays open", left = 0)
  \cup Chk("a file was left to the garbage collector", warned = 0)
  \cup Chk("a file of the caller was closed", gone = 0)
=============================================================================
