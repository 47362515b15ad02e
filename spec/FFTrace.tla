------------------------------- MODULE FFTrace ------------------------------
(* Validation of recorded behaviours. State: which behaviour, which event,   *)
(* and the model's state for stateful behaviours.                            *)
EXTENDS FFCheckSubword, FFCheckFormat, FFCheckEmbed, FFCheckStorage, FFCheckCompat, FFCheckCli, FFCheckSession, FFCheckBig,
        FFCheckFiles, FFCheckCopy

VARIABLES t, i, m

Ev == Trace[t].h[i]

Verdict(e) ==
  CASE "big" \in DOMAIN e -> BigEvent(e)
    [] e.op = "C06" -> C06Event(e)
    [] e.op = "C07" -> C07Event(e)
    [] e.op = "C08" -> C08Event(e)
    [] e.op = "C09" -> C09Event(e)
    [] e.op = "C01" -> C01Event(e)
    [] e.op = "C02" -> C02Event(e)
    [] e.op = "C03" -> C03Event(e)
    [] e.op = "C04" -> C04Event(e)
    [] e.op = "C05" -> C05Event(e)
    [] e.op = "C10" -> C10Event(e)
    [] e.op = "C11" -> CtorFails(e)
    [] e.op = "C13" -> C13Event(e)
    [] e.op = "C14" -> C14Event(e)
    [] e.op = "C15" -> StorageEvent(e)
    [] e.op = "C16" -> StorageEvent(e)
    [] e.op = "C17" -> C17Event(e)
    [] e.op = "C18" -> C18Event(e)
    [] e.op = "C19" -> C19Event(e)
    [] e.op = "C20" -> C20Event(e)
    [] e.op = "C21" -> C21Event(e)
    [] e.op = "C22" -> C22Event(e)
    [] e.op = "C23" -> C23Event(e)
    [] e.op = "C24" -> C24Event(e)
    [] e.op = "C26" -> C26Event(e)
    [] e.op = "C27" -> C27Event(e)
    \* a behaviour that must be reported: shows that verdicts get through
    [] e.op = "CANARY" -> {"canary: this clause always fails and must be reported by the validation", "canary"}

\* Events of sessions are judged in the state the session has reached.
IsSession(e) == e.op \in {"C11", "C12", "C25"} /\ e.act # "ctor" /\ "big" \notin DOMAIN e

Init == t \in 1..Len(Trace) /\ i = 1 /\ m = <<>>

Step == /\ i <= Len(Trace[t].h)
        /\ LET r == IF IsSession(Ev) THEN SessionStep(m, Trace[t].h, i)
                    ELSE IF Ev.op = "C26" /\ Ev.act # "part" THEN CopyStep(m, Ev)
                    ELSE [m |-> m, f |-> Verdict(Ev)]
           IN /\ IF r.f = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(t) \o " " \o ToString(i) \o " " \o ToString(r.f))
              /\ m' = r.m
        /\ i' = i + 1
        /\ t' = t

Next == Step
Spec == Init /\ [][Next]_<<t, i, m>>
=============================================================================
