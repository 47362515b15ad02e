--------------------------- MODULE FFCheckSession ----------------------------
(* Recorded sessions against FFSession: C11 (parts fit together) and C12     *)
(* (queries have no side effects and are repeatable).                        *)
(*                                                                           *)
(* The first event of a session gives the concrete parts behind the numbers, *)
(* every other event is an operation with its result, and what all           *)
(* embeddings, files and parts look like afterwards.                         *)
(* Model state: [st, ref, fref, fsnap, memo] - the abstract state, the       *)
(* number of the snapshot of each slot, of the bytes of each file, of the    *)
(* snapshot that was written into each file, and which queries were asked    *)
(* at which event.                                                           *)
EXTENDS FFSession, FFCheckEmbed

SessionInit == [st |-> Empty, ref |-> Tup([k \in 1..NSLOT |-> 0]), fref |-> Tup([k \in 1..NFILE |-> 0]),
                fsnap |-> Tup([k \in 1..NFILE |-> 0]), memo |-> <<>>]

\* the concrete value of [v, s, n, m, x] before any conversion
Conc(P, val) ==
  [vocab |-> <<P.voc[val.v]>>, storage |-> <<P.sto[val.s]>>,
   norms |-> IF val.n = 0 THEN <<>> ELSE <<P.nrm[val.n]>>,
   meta |-> IF val.m = 0 THEN <<>> ELSE <<P.met[val.m]>>]

\* The harness's parts have the sizes FFSession says.
PoolFails(P) ==
       Chk("pool: vocabularies", \A k \in 1..Len(VocPool) : VocPool[k].ok =>
              P.voc[k].kind = VocPool[k].kind /\ Len(P.voc[k].words) = VocPool[k].nw
              /\ UpperBound(P.voc[k]) = U64(VocPool[k].bound))
  \cup Chk("pool: storages", \A k \in 1..Len(StoPool) : StoPool[k].ok =>
              P.sto[k].kind = StoPool[k].kind /\ NRows(P.sto[k]) = StoPool[k].rows)
  \cup Chk("pool: norms", \A k \in 1..Len(NrmPool) : NrmPool[k].ok => Len(P.nrm[k]) = NrmPool[k].len)

IdsOf(s) == LET o == ChunksOf(s) IN Tup([k \in 1..Len(o) |-> o[k][1]])

SessAnswer(P, val, w) ==
  IF val.x = 1 THEN ExplicitAnswer(Conc(P, val), w) ELSE Answer(Conc(P, val), w)

\* ---- results ------------------------------------------------------------

LookOk(P, val, w, how, r) ==
  LET e == Conc(P, val)
      a == SessAnswer(P, val, w)
      none == a.t = "none"
      noNorms == val.n = 0
      D == [t |-> "vec", v |-> SubSeq(P.dflt, 1, Sto(e).cols)]
  IN CASE how = 1 -> IF none THEN IsA(r.res, "KeyError") ELSE VecIs(e, r.res, a)
       [] how = 2 -> VecIs(e, r.res, a)
       [] how = 3 -> IF none THEN r.res = D ELSE VecIs(e, r.res, a)
       [] how = 4 -> IF none THEN r.res.t = "none" /\ ~r.wrote
                     ELSE r.same /\ VecIs(e, r.res, a) /\ VecIs(e, [t |-> "vec", v |-> r.buf], a)
       [] how = 5 -> IF noNorms THEN IsA(r.res, "TypeError") ELSE PairIs(e, r.res, a)
       [] how = 6 -> IF noNorms THEN IsA(r.res, "TypeError") /\ ~r.wrote
                     ELSE IF none THEN r.res.t = "none" /\ ~r.wrote
                     ELSE r.same /\ PairIs(e, r.res, a) /\ VecIs(e, [t |-> "vec", v |-> r.buf], a)

ItemOk(P, val, pos, r) ==
  LET e == Conc(P, val) IN
  IF pos >= Known(val) THEN r.t = "stop"
  ELSE /\ r.t = "item"
       /\ r.w = Voc(e).words[pos + 1]
       /\ RowSame(r.v, Row(Sto(e), pos + 1))
       /\ r.n = IF val.n = 0 THEN <<>> ELSE <<e.norms[1][pos + 1]>>

Skip(P, s) == IF s = 0 THEN <<>> ELSE <<P.skips[s]>>
QueryFails(P, st, ev) ==
  LET a == ev.a
      val == IF ev.act \in {"probe", "inext", "istart"} THEN <<>> ELSE st.slot[a[1]][1]
      e == Conc(P, val)
      W(k) == P.words[k]
      A(k) == SessAnswer(P, val, P.words[k])
  IN CASE ev.act = "look" -> Chk("lookup", LookOk(P, val, W(a[2]), a[3], ev.res))
       [] ev.act = "sim"  -> WordSimFails(e, A(a[2]), [w |-> W(a[2]), k |-> a[3], res |-> ev.res])
       [] ev.act = "vsim" -> VecSimFails(e, [vec |-> SubSeq(P.vecs[a[2]], 1, Sto(e).cols), k |-> a[3],
                                             skip |-> IF a[4] = 0 THEN <<>> ELSE P.skips[a[4]], res |-> ev.res])
       [] ev.act = "ana"  -> AnaFailsWith(e, A(a[2]), A(a[3]), A(a[4]),
                                [a |-> W(a[2]), b |-> W(a[3]), c |-> W(a[4]), k |-> a[5], skip |-> Skip(P, a[6]), res |-> ev.res])
       [] ev.act = "isin" -> Chk("membership", ev.res.t = "bool" /\ ev.res.v = (PosOf(Voc(e).words, W(a[2])) > 0))
       [] ev.act = "voc"  -> Chk("vocabulary query", ev.res.t # "exc" /\ (a[3] = 1 /\ val.x = 0 => ev.res = Lookup(Voc(e), W(a[2]))))
       [] ev.act = "slice" -> Chk("slice", ev.res.t = "mat")
       [] ev.act = "probe" ->
            \* no words, no lines: a text file then does not tell its dimension
            LET f == st.file[a[1]][1] IN
            Chk("written file cannot be loaded", ev.res.t = "ref" \/ (f.fmt = "text" /\ Known(f.val) = 0))
       [] ev.act = "bad" -> Chk("accepted", a[2] \in {1, 2, 3} \/ ev.res.t = "exc")
       [] ev.act = "inext" -> LET it == st.iter[a[1]][1]
                              IN Chk("iteration", ItemOk(P, st.slot[it.slot][1], it.pos, ev.res))
       [] OTHER -> {}

\* ---- the same question, the same answer ---------------------------------

SimsAgree(x, y) ==
  /\ Len(x) = Len(y)
  /\ \A j \in 1..Len(x) : Near(FixQ(x[j][2], 10), FixQ(y[j][2], 10), 2)
  \* words agree unless there are ties
  /\ \A j \in 1..Len(x) :
       \/ x[j][1] = y[j][1]
       \/ j = Len(x)
       \/ \E i \in 1..Len(x) : i # j /\ Near(FixQ(x[i][2], 10), FixQ(x[j][2], 10), 2)
ResAgree(x, y) ==
  IF x.t = "sims" /\ y.t = "sims" THEN SimsAgree(x.v, y.v)
  ELSE IF x.t = "exc" /\ y.t = "exc" THEN x.v = y.v
  ELSE x = y
\* lookups: what came back, not what the buffer was before
Ans(ev) == IF ev.act = "look" THEN ev.res.res ELSE ev.res

\* Questions are identified by the snapshot asked, not by how it came about.
KeyOf(m, ev) ==
  CASE ev.act = "probe" -> <<ev.act, m.fref[ev.a[1]], <<>> >>
    [] OTHER -> <<ev.act, m.ref[ev.a[1]], Tail(ev.a)>>
Asked(m, key) == SelectInSeq(m.memo, LAMBDA x : x[1] = key)
Remembered == Queries \cup {"probe"}

\* ---- one event ----------------------------------------------------------

\* h: the behaviour, i: the event's position; result [m, f]
SessionStep(m, h, i) ==
  LET ev == h[i]
      P == h[1]
  IN IF ev.act = "pool" THEN [m |-> SessionInit, f |-> PoolFails(ev)]
  ELSE
  LET op == [act |-> ev.act, a |-> ev.a]
      a == ev.a
      can == Enabled(m.st, op)
      acc == Accepted(m.st, op)
      quest == ev.act \in (Queries \cup {"probe", "inext", "istart", "bad"})
      mutates == ev.act \in {"new", "norms", "meta", "explicit", "load"}
      st2 == After(m.st, op)
      tgt == IF mutates /\ acc THEN a[1] ELSE 0
      S(id) == P.vals[id]
      \* the snapshot of the slot that was changed
      target ==
        LET id == ev.slots[tgt]
            val == st2.slot[tgt][1]
        IN IF id = 0 THEN {"no embeddings"}
           ELSE CASE ev.act = "new" -> ValueFails(S(id), Conc(P, val))
                  [] ev.act = "norms" ->
                       LET old == S(m.ref[tgt])
                           new == [old EXCEPT !.norms = IF a[2] = 0 THEN <<>> ELSE <<P.nrm[a[2]]>>]
                       IN Chk("parts after assignment", S(id) = [new EXCEPT !.chunks = IdsOf(new)])
                  [] ev.act = "meta" ->
                       LET old == S(m.ref[tgt])
                           new == [old EXCEPT !.meta = IF a[2] = 0 THEN <<>> ELSE <<P.met[a[2]]>>]
                       IN Chk("parts after assignment", S(id) = [new EXCEPT !.chunks = IdsOf(new)])
                  [] ev.act = "explicit" ->
                       ExplicitFails(S(id), Conc(P, val))
                       \cup Chk("metadata of converted embeddings", S(id).meta = <<>>)
                       \cup Chk("chunk list", S(id).chunks = IdsOf(S(id)))
                  [] ev.act = "load" -> Chk("loaded embeddings differ from written ones", id = m.fsnap[a[2]])
      key == KeyOf(m, ev)
      p == Asked(m, key)
      wkey == <<"write", m.ref[a[1]], <<a[3]>> >>
      pw == Asked(m, wkey)
      wrote == ev.act = "write" /\ acc
      f == IF ~can THEN {"harness: operation not enabled"}
           ELSE
           (IF quest THEN QueryFails(P, m.st, ev)
            ELSE IF acc THEN Chk("refused", ev.res.t # "exc") ELSE Chk("accepted", ev.res.t = "exc"))
           \cup (IF tgt = 0 THEN {} ELSE target)
           \cup Chk("other embeddings changed", \A k \in 1..NSLOT : k # tgt => ev.slots[k] = m.ref[k])
           \cup Chk("file changed", \A k \in 1..NFILE : (wrote /\ k = a[2]) \/ ev.files[k] = m.fref[k])
           \cup Chk("parts or arguments changed", ev.pool = P.pool /\ \A k \in 1..Len(ev.args) : ev.args[k][1] = ev.args[k][2])
           \cup Chk("earlier results changed", \A k \in 1..Len(ev.held) : ev.held[k][1] = ev.held[k][2])
           \cup (IF ev.act \in Remembered /\ p > 0
                 THEN Chk("another answer to the same question", ResAgree(Ans(h[m.memo[p][2]]), Ans(ev))) ELSE {})
           \cup (IF wrote /\ pw > 0
                 THEN Chk("another file for the same embeddings", h[m.memo[pw][2]].files[h[m.memo[pw][2]].a[2]] = ev.files[a[2]])
                 ELSE {})
      m2 == [st |-> st2, ref |-> ev.slots, fref |-> ev.files,
             fsnap |-> IF wrote THEN [m.fsnap EXCEPT ![a[2]] = m.ref[a[1]]] ELSE m.fsnap,
             memo |-> IF ev.act \in Remembered /\ p = 0 THEN Append(m.memo, <<key, i>>)
                      ELSE IF wrote /\ pw = 0 THEN Append(m.memo, <<wkey, i>>)
                      ELSE m.memo]
  IN IF can THEN [m |-> m2, f |-> f] ELSE [m |-> m, f |-> f]

\* {op, act: "ctor", cls, ndim, kind, size, data: bits, res, got}
CtorFails(e) ==
  LET ok == e.kind = "f" /\ e.size = 4 /\ e.ndim = (IF e.cls = "nd" THEN 2 ELSE 1)
  IN IF ok THEN Chk("float32 array refused", e.res.t = "val")
                \cup (IF e.res.t = "val" THEN Chk("values kept", e.res.v = e.data) ELSE {})
     ELSE Chk("other array accepted", Raised(e.res))
=============================================================================
