---------------------------- MODULE FFCheckFiles ----------------------------
(* Clauses of C23 (writes that fail) and C24 (how files are addressed).      *)
EXTENDS FFFiles, FFCheckFormat

\* {act: "limit", what, whole, runs: [{n, res, before, left}], full, again}
\* {act: "tool", what, whole, runs: [{n, res: status, before, left}]}
\* {act: "refused", what, runs: [{why, res}]}
\* {act: "unreadable", what, status, before, left}
RunOk(r) == IF r.t = "status" THEN r.v = 0 ELSE ~Raised(r)
RunFails(e, k) ==
  LET x == e.runs[k] IN
  {f \o " (room for " \o ToString(x.n) \o " of " \o ToString(Len(e.whole)) \o " bytes)" :
     f \in WriteFails(e.whole, x.n, x.before, RunOk(x.res), x.left)}
C23Event(e) ==
  Pre(e.what,
      CASE e.act = "limit" ->
             UNION {RunFails(e, k) : k \in 1..Len(e.runs)}
             \cup Chk("writing to a full device was reported as success", e.whole = <<>> \/ Raised(e.full))
             \cup Chk("the embeddings cannot be written again after a failure", e.again.t = "bytes" /\ e.again.v = e.whole)
        [] e.act = "tool" -> UNION {RunFails(e, k) : k \in 1..Len(e.runs)}
        [] e.act = "refused" ->
             UNION {Chk(e.runs[k].why \o ": reported as success", Raised(e.runs[k].res)) : k \in 1..Len(e.runs)}
        [] e.act = "unreadable" ->
             Chk("unreadable input, status 0", e.status # 0)
             \cup Chk("unreadable input, destination touched", e.left = e.before))

\* {act: "load", e, vals, loads: [{how, name, mmap, res: reference into vals}]}
\* {act: "compat", what, loads: [{how, res}]}: the first is the plain name
\* {act: "write", what, whole, runs: [{how, res, old, left}]}
\* {act: "origin", q: [{how, want, got}]}
How(l) == l.how \o ": " \o l.name \o (IF l.mmap THEN " (mmap)" ELSE "")
C24Event(e) ==
  CASE e.act = "load" ->
         UNION {LET l == e.loads[k] IN
                Pre(How(l), IF l.res.t # "ref" THEN {"not loaded"}
                            ELSE IF l.name = "all" THEN ValueFails(e.vals[l.res.v], e.e)
                            ELSE CompFails(e.vals[l.res.v], e.e, l.name)) : k \in 1..Len(e.loads)}
    [] e.act = "compat" ->
         UNION {LET l == e.loads[k] IN
                Pre(e.what \o " by " \o l.how, Chk("not loaded", l.res.t = "ref")
                      \cup Chk("differs from the file loaded by name", l.res.v = e.loads[1].res.v)) : k \in 1..Len(e.loads)}
    [] e.act = "write" ->
         UNION {LET x == e.runs[k] IN
                Pre(e.what \o " by " \o x.how, WriteFails(e.whole, Len(e.whole), Absent, ~Raised(x.res), x.left)) : k \in 1..Len(e.runs)}
    [] e.act = "origin" ->
         UNION {Chk("origin, " \o e.q[k].how, e.q[k].got.t = "str" /\ e.q[k].got.v = e.q[k].want) : k \in 1..Len(e.q)}

\* {act: "calls", what, runs: [{why, mapped, res, held, left, gone, warned}]}
C27Event(e) ==
  UNION {LET x == e.runs[k] IN Pre(e.what \o ", " \o x.why, HeldFails(x.mapped, x.held, x.left, x.gone, x.warned))
         : k \in 1..Len(e.runs)}
=============================================================================
