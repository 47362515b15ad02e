---------------------------- MODULE FFTraceBase -----------------------------
(* Recorded behaviours of the implementation. Every line of the trace file   *)
(* is one behaviour: {"h": [event, ...]}.                                    *)
EXTENDS FFBase, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.FF_TRACE)

\* results are tagged: {"t": "val" | "exc" | "none" | ..., "v": value}
Raised(r) == r.t = "exc"
RaisedIn(r, S) == r.t = "exc" /\ r.v \in S
Val(r, x) == r.t = "val" /\ r.v = x

\* fails of a list of queries, labelled by position
Each(qs, F(_)) == UNION {{f \o " #" \o ToString(k) : f \in F(qs[k])} : k \in 1..Len(qs)}
=============================================================================
