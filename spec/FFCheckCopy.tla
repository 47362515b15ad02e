---------------------------- MODULE FFCheckCopy -----------------------------
(* Clauses of C26: copies, pickles.                                          *)
EXTENDS FFCheckFormat
CP == INSTANCE FFCopy

\* ---- single parts -------------------------------------------------------
\* {act: "part", what, e, vals, file, now, reads,
\*  copies: [{how, res, file, same, now, later, reads, again, q: [{w, idx}]}]}: later and again are
\* what a copy shows and answers once what the original was made from has changed, 0 if not asked
PartFails(e) ==
  UNION {LET c == e.copies[k] IN
         Pre(e.what \o " by " \o c.how,
             IF c.res.t # "ref" THEN {"cannot be copied"}
             ELSE CompFails(e.vals[c.res.v], e.e, e.what)
                  \cup Chk("the original changed", c.now = e.now)
                  \cup Chk("changed with what the original was made from", c.later \in {0, c.res.v} /\ c.again \in {0, c.reads})
                  \cup Chk("answers other than the original's", c.reads = e.reads)
                  \cup Chk("other file", c.file = e.file)
                  \cup Chk("not equal to the original", c.same.t = "bool" /\ c.same.v)
                  \cup UNION {Chk("lookup", c.q[j].idx = Lookup(e.e.vocab[1], c.q[j].w)) : j \in 1..Len(c.q)})
         : k \in 1..Len(e.copies)}

\* ---- histories ----------------------------------------------------------
\* {act: new/copy/setn/setm/poke, a, res, objs: [<<>> or <<[v, s, n, m, ans, org]>>]}
\* with numbers for distinct observations; m: the model's state and what was observed
CopyInit == [st |-> CP!Empty, seen |-> {}, ans |-> {}]
CopyPart == <<"vocabulary", "storage", "norms", "metadata">>
CopyStep(m0, ev) ==
  LET m == IF m0 = <<>> THEN CopyInit ELSE m0
      op == [act |-> ev.act, a |-> ev.a]
      can == CP!Enabled(m.st, op)
      done == ev.res.t = "val"
      st2 == IF done THEN CP!After(m.st, op) ELSE m.st
      live == {k \in CP!Objs : st2.obj[k] # <<>>}
      shown == {k \in CP!Objs : ev.objs[k] # <<>>}
      new == {<<p, CP!View(st2, k)[p], ev.objs[k][1].ids[p], k>> : p \in 1..4, k \in live}
      all == m.seen \cup {<<x[1], x[2], x[3]>> : x \in new}
      ans == {<<CP!View(st2, k)[1], CP!View(st2, k)[2], CP!View(st2, k)[3], ev.objs[k][1].ans>> : k \in live}
      allans == m.ans \cup ans
      who(k) == "object " \o ToString(k) \o ": "
  IN IF ~can THEN [m |-> m, f |-> {"harness: operation not enabled"}]
     ELSE IF live # shown THEN [m |-> [m EXCEPT !.st = st2], f |-> {"objects are missing"}]
     ELSE [m |-> [st |-> st2, seen |-> all, ans |-> allans],
           f |-> Chk(ev.act \o " refused", done \/ ev.act = "poke")
                 \cup UNION {Chk(who(x[4]) \o CopyPart[x[1]] \o " is not what it was copied from or set to",
                                 \A y \in all : y[1] = x[1] /\ y[2] = x[2] => y[3] = x[3])
                             \cup Chk(who(x[4]) \o CopyPart[x[1]] \o " shows what it should not",
                                 \A y \in all : y[1] = x[1] /\ y[3] = x[3] => y[2] = x[2]) : x \in new}
                 \cup Chk("the same parts answer differently",
                          \A x \in ans : \A y \in allans : x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] => x[4] = y[4])
                 \cup (IF ev.act = "copy" /\ ev.a[3] < 4
                       THEN Chk("origin", ev.objs[ev.a[1]][1].org = ev.objs[ev.a[2]][1].org) ELSE {})]

C26Event(e) == PartFails(e)
=============================================================================
