-------------------------------- MODULE MC27 --------------------------------
(* Design check of the descriptors of calls: a call opens its file, may map  *)
(* it (the mapping holds a descriptor of its own), takes steps any of which  *)
(* may fail, and ends. Results and exceptions are kept by the caller for a   *)
(* while; an exception keeps the local variables of the call alive. Files    *)
(* that nothing refers to any more are closed by the runtime, which warns.   *)
(* Always: the call closes its file however it ends; the flawed variant only *)
(* closes it when it succeeds.                                               *)
EXTENDS FFFiles
CONSTANTS Steps, Always, MaxCalls
VARIABLES pc,        \* "idle", "run", "ended", "dropped"
          mapped,    \* the call maps
          fd, mfd,   \* its file and the mapping's descriptor are open
          k, ok, warned, n
vars == <<pc, mapped, fd, mfd, k, ok, warned, n>>
Init == pc = "idle" /\ mapped = FALSE /\ fd = 0 /\ mfd = 0 /\ k = 0 /\ ok = TRUE /\ warned = 0 /\ n = 0
Start == /\ pc = "idle" /\ n < MaxCalls /\ n' = n + 1
         /\ mapped' \in BOOLEAN
         /\ \/ pc' = "run" /\ fd' = 1 /\ ok' = TRUE          \* opened
            \/ pc' = "ended" /\ fd' = 0 /\ ok' = FALSE       \* cannot be opened
         /\ k' = 0 /\ mfd' = 0 /\ warned' = 0
StepOn == /\ pc = "run" /\ k < Steps /\ k' = k + 1
          /\ mfd' = IF mapped /\ k = Steps - 1 THEN 1 ELSE mfd
          /\ UNCHANGED <<pc, mapped, fd, ok, warned, n>>
Fail == /\ pc = "run" /\ pc' = "ended" /\ ok' = FALSE
        /\ fd' = IF Always THEN 0 ELSE fd
        /\ UNCHANGED <<mapped, mfd, k, warned, n>>           \* the exception keeps the mapping
Return == /\ pc = "run" /\ k = Steps /\ pc' = "ended" /\ fd' = 0 /\ UNCHANGED <<mapped, mfd, k, ok, warned, n>>
\* the caller lets go of the result or exception
Drop == /\ pc = "ended" /\ pc' = "dropped" /\ mfd' = 0 /\ fd' = 0 /\ warned' = fd /\ UNCHANGED <<mapped, k, ok, n>>
Again == pc = "dropped" /\ pc' = "idle" /\ UNCHANGED <<mapped, fd, mfd, k, ok, warned, n>>
Next == Start \/ StepOn \/ Fail \/ Return \/ Drop \/ Again
Inv == /\ pc = "ended" => HeldFails(mapped, fd + mfd, 0, 0, 0) = {}
       /\ pc = "dropped" => HeldFails(mapped, 0, fd + mfd, 0, warned) = {}
=============================================================================
