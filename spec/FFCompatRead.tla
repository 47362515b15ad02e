---------------------------- MODULE FFCompatRead -----------------------------
(* Reference readers of the foreign formats, as the specification reads them:*)
(* used to check the formats themselves (MC18 - MC21).                       *)
EXTENDS FFCompat

CNo == [st |-> "bad"]

\* a decimal natural of ASCII digits, -1 when it is none
NatOf(s) == IF s = <<>> \/ ~AllDigits(s) THEN -1 ELSE IntOfDigits(s)

\* "rows cols" in the line b
DimsOf(b) ==
  LET p == Fields(Strip(b, AsciiSpace), AsciiSpace)
  IN IF Len(p) # 2 THEN <<>>
     ELSE IF NatOf(p[1]) < 0 \/ NatOf(p[2]) < 0 THEN <<>>
     ELSE <<NatOf(p[1]), NatOf(p[2])>>

\* ---- word2vec ---------------------------------------------------------------
RECURSIVE W2VRead_(_, _, _, _, _, _)
W2VRead_(b, o, n, d, ws, vs) ==
  IF n = 0 THEN [st |-> "ok", words |-> ws, vecs |-> vs]
  ELSE LET s == NextPos(b, o, 32) IN
       IF s < 0 THEN CNo
       ELSE IF ~Has(b, s + 1, 4 * d) THEN CNo
       ELSE LET w == Utf8Decode(Slice(b, o, s - o)) IN
            IF ~w.ok THEN CNo
            ELSE W2VRead_(b, s + 1 + 4 * d, n - 1, d, Append(ws, Strip(w.word, AsciiSpace)),
                          Append(vs, Tup([k \in 1..d |-> I32At(b, s + 1 + 4 * (k - 1))])))
W2VRead(b) ==
  LET z == NextPos(b, 0, 10)
      h == DimsOf(IF z < 0 THEN b ELSE Slice(b, 0, z))
  IN IF h = <<>> THEN CNo
     ELSE W2VRead_(b, IF z < 0 THEN Len(b) ELSE z + 1, h[1], h[2], <<>>, <<>>)

\* ---- text -------------------------------------------------------------------
\* lines without their newline; an unterminated last line counts
TextLines(b) == LET p == SplitOn(b, 10) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
TextLine(b) == Fields(b, AsciiSpace)
TextRead(b, dims) ==
  LET ls == TextLines(b)
      body == IF dims THEN Tail(ls) ELSE ls
      h == IF ls = <<>> THEN <<>>
           ELSE IF dims THEN DimsOf(ls[1])
           ELSE <<Len(ls), Len(TextLine(ls[1])) - 1>>
  IN IF h = <<>> THEN CNo
     ELSE IF Len(body) < h[1] THEN CNo
     ELSE LET f == Tup([i \in 1..h[1] |-> TextLine(body[i])]) IN
          IF \E i \in 1..h[1] : Len(f[i]) # h[2] + 1 THEN CNo
          ELSE [st |-> "ok", words |-> Tup([i \in 1..h[1] |-> f[i][1]]), toks |-> Tup([i \in 1..h[1] |-> Tail(f[i])])]

\* ---- fastText ---------------------------------------------------------------
FTEncode(words, cfg, thr, rows) ==
  FT_MAGIC \o LE(12, 4) \o Flat(Tup([k \in 1..12 |-> I32Bytes(cfg[k])])) \o thr
  \o LE(Len(words), 4) \o LE(Len(words), 4) \o LE(0, 4) \o LE(0, 8) \o Neg1
  \o Flat(Tup([i \in 1..Len(words) |-> Utf8(words[i]) \o <<0>> \o LE(0, 8) \o <<0>>]))
  \o <<0>> \o LE(Len(rows), 8) \o LE(cfg[1], 8)
  \o Flat(Tup([i \in 1..Len(rows) |-> Floats(rows[i])]))
=============================================================================
