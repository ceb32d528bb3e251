------------------------------- MODULE XmqLex -------------------------------
(***************************************************************************)
(* The lexical grammar of xmq as an explicit state machine.                *)
(*                                                                         *)
(* A document is a sequence of bytes.  A machine configuration m records   *)
(* how much input has been consumed, which construct is being read, how    *)
(* deep the nesting is, and the landmarks (last brace, parenthesis, equals *)
(* and quote) that a syntax error refers to.  LexStep consumes one lexical *)
(* phrase, emits its tokens, and moves to the next configuration.          *)
(* Tokens are records <<type, first, after>> of byte offsets; the line and *)
(* column of an offset are defined declaratively by LineOf and ColOf.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0

NL == 10  TAB == 9  CR == 13  SP == 32  QUO == 39  AMP == 38  SLASH == 47
STAR == 42  LPAR == 40  RPAR == 41  LBRACE == 123  RBRACE == 125  EQ == 61
COLON == 58  SEMI == 59  BANG == 33  QMARK == 63  DQ == 34

Digits     == 48..57
LowerHex   == (48..57) \cup (97..102)
StartChars == (97..122) \cup (65..90) \cup {95}
NameChars  == (97..122) \cup (65..90) \cup (48..57) \cup {45, 95, 46, 58, 35}
TokWs      == {SP, NL, CR}                 \* separates tokens
XmlWs      == {SP, NL, CR, TAB}            \* a tab never separates xmq tokens
ValueStop  == {SP, NL, CR, TAB, LPAR, RPAR, QUO, DQ, LBRACE, RBRACE}

\* Errors, numbered as in the public header.
ErrQuoteNotClosed == 4     ErrEntityNotClosed == 5   ErrCommentNotClosed == 6
ErrCommentSlashes == 7     ErrBodyNotClosed == 8     ErrAttrsNotClosed == 9
ErrCompoundNotClosed == 10 ErrCompoundContent == 11  ErrQuoteTooMany == 12
ErrClosingBrace == 13      ErrContentAfterEq == 14   ErrTab == 15
ErrInvalidChar == 16       ErrDoctype == 17           ErrValueStart == 30

-----------------------------------------------------------------------------
(* Scanning *)

RECURSIVE ScanIn(_, _, _)
ScanIn(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN ScanIn(s, i+1, C) ELSE i

RECURSIVE ScanTo(_, _, _)
ScanTo(s, i, C) == IF i <= Len(s) /\ s[i] \notin C THEN ScanTo(s, i+1, C) ELSE i

\* Bytes of the whitespace at i, 0 if none: ascii whitespace, no-break space
\* and the four unicode quads/spaces U+2000..U+2003.
WsLen(s, i) ==
  IF At(s, i) \in XmlWs THEN 1
  ELSE IF At(s, i) = 194 /\ At(s, i+1) = 160 THEN 2
  ELSE IF At(s, i) = 226 /\ At(s, i+1) = 128 /\ At(s, i+2) \in 128..131 THEN 3
  ELSE 0

RECURSIVE WsEnd(_, _)
WsEnd(s, i) ==
  IF WsLen(s, i) > 0 /\ At(s, i) # TAB THEN WsEnd(s, i + WsLen(s, i)) ELSE i

RECURSIVE ValueEnd(_, _)
ValueEnd(s, i) ==
  IF i <= Len(s) /\ s[i] \notin ValueStop /\ WsLen(s, i) = 0
  THEN ValueEnd(s, i+1) ELSE i

\* Line and column of the byte at offset i (columns count characters, not bytes).
RECURSIVE LineCol(_, _, _, _, _)
LineCol(s, k, i, l, c) ==
  IF k >= i \/ k > Len(s) THEN <<l, c>>
  ELSE IF s[k] = NL THEN LineCol(s, k+1, i, l+1, 1)
  ELSE IF s[k] \in 128..191 THEN LineCol(s, k+1, i, l, c)
  ELSE LineCol(s, k+1, i, l, c+1)
PosOf(s, i) == LineCol(s, 1, i, 1, 1)

-----------------------------------------------------------------------------
(* Quotes, entities, comments: [ok, end, err, at] *)

Good(e)     == [ok |-> TRUE,  end |-> e, err |-> 0, at |-> 0]
Bad(e, at)  == [ok |-> FALSE, end |-> 0, err |-> e, at |-> at]

\* A quote of n quotes is closed by the next run of exactly n quotes, shorter
\* runs are content and a longer run is an error.  Two quotes are empty.
RECURSIVE QuoteClose(_, _, _)
QuoteClose(s, i, n) ==
  LET a == ScanTo(s, i, {QUO})  b == ScanIn(s, a, {QUO}) IN
  IF a > Len(s) THEN 0
  ELSE IF b - a > n THEN -1
  ELSE IF b - a = n THEN b
  ELSE QuoteClose(s, b, n)

QuoteAt(s, i) ==
  LET n == ScanIn(s, i, {QUO}) - i IN
  IF n = 2 THEN Good(i+2)
  ELSE LET e == QuoteClose(s, i+n, n) IN
       IF e = 0 THEN Bad(ErrQuoteNotClosed, i)
       ELSE IF e = -1 THEN Bad(ErrQuoteTooMany, i)
       ELSE Good(e)

\* An entity without semicolon is an error, unless it only contains hex digits.
EntityAt(s, i) ==
  LET e == ScanIn(s, i+1, NameChars) IN
  IF At(s, e) = SEMI THEN Good(e+1)
  ELSE IF \E k \in i+1..e-1 : s[k] \notin LowerHex THEN Bad(ErrEntityNotClosed, i)
  ELSE Good(e)

\* The end of a block comment opened with n slashes, whose text starts at i:
\* a star followed by exactly n slashes. More slashes is an error.
RECURSIVE BlockClose(_, _, _)
BlockClose(s, i, n) ==
  LET a == ScanTo(s, i, {STAR})  b == ScanIn(s, a+1, {SLASH}) IN
  IF a > Len(s) THEN 0
  ELSE IF b - a - 1 = n THEN b
  ELSE IF b - a - 1 > n THEN -1
  ELSE BlockClose(s, a+1, n)

BlockAt(s, at, i, n) ==
  LET e == BlockClose(s, i, n) IN
  IF e = 0 THEN Bad(ErrCommentNotClosed, at)
  ELSE IF e = -1 THEN Bad(ErrCommentSlashes, at)
  ELSE Good(e)

-----------------------------------------------------------------------------
(* The machine *)

LexStart(s) ==
  [i |-> 1, pc |-> "content", depth |-> 0, ctx |-> "elem", n |-> 0, special |-> "",
   lastBody |-> 0, lastAttr |-> 0, lastEq |-> 0, susp |-> 0,
   err |-> 0, at |-> 0, emit |-> <<>>]

LexFinal(m) == m.pc \in {"done", "error"}

Tok(t, a, b) == [t |-> t, a |-> a, b |-> b]

Fail(m, e, at) == [m EXCEPT !.pc = "error", !.err = e, !.at = at, !.emit = <<>>]
Go(m, pc, i, toks) == [m EXCEPT !.pc = pc, !.i = i, !.emit = toks]

\* Whitespace that may follow a name, equals sign or attribute list.
OptWs(s, i) == IF At(s, i) \in XmlWs THEN WsEnd(s, i) ELSE i
WsTok(i, j) == IF j > i THEN <<Tok("whitespace", i, j)>> ELSE <<>>

\* A quote that ended between two word characters is remembered, since it may
\* explain a later error (the user needed more quotes).
Suspect(s, m, e) ==
  IF e - 2 >= 1 /\ e <= Len(s) /\ s[e-2] \notin {QUO, SP} /\ s[e-1] = QUO /\ s[e] # QUO
  THEN [m EXCEPT !.susp = e - 1] ELSE m

DoQuote(s, m, next, ty) ==
  LET q == QuoteAt(s, m.i) IN
  IF ~q.ok THEN Fail(m, q.err, q.at)
  ELSE IF q.end - m.i = 2 THEN Go(m, next, q.end, <<Tok(ty, m.i, q.end)>>)
  ELSE Go(Suspect(s, m, q.end), next, q.end, <<Tok(ty, m.i, q.end)>>)

DoEntity(s, m, next, ty) ==
  LET q == EntityAt(s, m.i) IN
  IF ~q.ok THEN Fail(m, q.err, q.at)
  ELSE Go(m, next, q.end, <<Tok(ty, m.i, q.end)>>)

LastColon(s, a, b) ==
  LET C == {k \in a..b-1 : s[k] = COLON} IN
  IF C = {} THEN 0 ELSE CHOOSE k \in C : \A j \in C : j <= k

\* The name of an element: a key if the next character is an equals sign.
DoName(s, m0, a, b) ==
  LET m   == [m0 EXCEPT !.special = IF At(s, a) = QMARK THEN "pi" ELSE IF At(s, a) = BANG THEN "doctype" ELSE ""]
      nx  == At(s, ScanIn(s, b, XmlWs))
      ty  == IF nx = EQ THEN "element_key" ELSE "element_name"
      col == IF At(s, a) \in {BANG, QMARK} THEN 0 ELSE LastColon(s, a, b)
  IN Go(m, "afterName", b,
        IF col = 0 THEN <<Tok(ty, a, b)>>
        ELSE <<Tok("element_ns", a, col), Tok("ns_colon", col, col+1), Tok(ty, col+1, b)>>)

IsXmlns(s, a, b) == b - a = 5 /\ SubSeq(s, a, b-1) = <<120,109,108,110,115>>

DoAttrKey(s, m) ==
  LET a == m.i  b == ScanIn(s, a, NameChars)  c == LastColon(s, a, b) IN
  Go(m, "afterAttrKey", b,
     IF c = 0
     THEN <<Tok(IF IsXmlns(s, a, b) THEN "ns_declaration" ELSE "attr_key", a, b)>>
     ELSE IF IsXmlns(s, a, c)
     THEN <<Tok("ns_declaration", a, c), Tok("ns_colon", c, c+1), Tok("attr_ns", c+1, b)>>
     ELSE <<Tok("attr_ns", a, c), Tok("ns_colon", c, c+1), Tok("attr_key", c+1, b)>>)

DocTypeWord == <<33,68,79,67,84,89,80,69>>
IsDoctype(s, i) ==
  /\ i + 8 <= Len(s) /\ SubSeq(s, i, i+7) = DocTypeWord
  /\ s[i+8] \in {EQ, SP, TAB, NL, CR}

\* An unexpected = ( { after a line that only continues a dangling equals sign.
RECURSIVE BackWhile(_, _, _)
BackWhile(s, i, C) == IF i > 1 /\ At(s, i) \in C THEN BackWhile(s, i-1, C) ELSE i

LostAfterEquals(s, m) ==
  LET j == BackWhile(s, m.i - 1, (NameChars \cup XmlWs) \ {NL})
      k == BackWhile(s, j, XmlWs)
  IN  At(s, m.i) \in {LBRACE, LPAR, EQ} /\ j > 1 /\ At(s, j) = NL
      /\ At(s, k) = EQ /\ k = m.lastEq

DoComment(s, m) ==
  LET a == m.i  e == ScanIn(s, a, {SLASH}) IN
  IF At(s, e) # STAR
  THEN LET z == ScanTo(s, a, {NL}) IN
       Go(m, "content", IF z <= Len(s) THEN z+1 ELSE z,
          <<Tok("comment", a, IF z <= Len(s) THEN z+1 ELSE z)>>)
  ELSE LET q == BlockAt(s, a, e+1, e-a) IN
       IF ~q.ok THEN Fail(m, q.err, q.at)
       ELSE [Go(m, IF At(s, q.end) = STAR THEN "comment" ELSE "content", q.end,
                <<Tok("comment", a, q.end)>>) EXCEPT !.n = e-a]

ContentStep(s, m) ==
  LET i == m.i  c == At(s, i)  cc == At(s, i+1) IN
  IF i > Len(s)
  THEN IF m.depth > 0 THEN Fail(m, ErrBodyNotClosed, m.lastBody) ELSE Go(m, "done", i, <<>>)
  ELSE IF c \in TokWs THEN Go(m, "content", WsEnd(s, i), WsTok(i, WsEnd(s, i)))
  ELSE IF c = QUO THEN DoQuote(s, m, "content", "quote")
  ELSE IF c = AMP THEN DoEntity(s, m, "content", "entity")
  ELSE IF c = SLASH /\ cc \in {SLASH, STAR} THEN DoComment(s, m)
  ELSE IF c \in StartChars THEN DoName(s, m, i, ScanIn(s, i, NameChars))
  ELSE IF IsDoctype(s, i) THEN DoName(s, m, i, ScanIn(s, i+1, NameChars))
  ELSE IF c = QMARK /\ i + 1 <= Len(s) THEN DoName(s, m, i, ScanIn(s, i+1, NameChars))
  ELSE IF c = RBRACE
  THEN IF m.depth = 0 THEN Fail(m, ErrClosingBrace, i)
       ELSE [Go(m, "content", i+1, <<Tok("brace_right", i, i+1)>>) EXCEPT !.depth = @ - 1]
  ELSE IF LostAfterEquals(s, m) THEN Fail(m, ErrContentAfterEq, m.lastEq)
  ELSE IF c = TAB THEN Fail(m, ErrTab, i)
  ELSE Fail(m, ErrInvalidChar, i)

CommentStep(s, m) ==        \* a continuation: *...*/ directly after a block comment
  LET q == BlockAt(s, m.i, m.i+1, m.n) IN
  IF ~q.ok THEN Fail(m, q.err, q.at)
  ELSE Go(m, IF At(s, q.end) = STAR THEN "comment" ELSE "content", q.end,
          <<Tok("comment_continuation", m.i, q.end)>>)

\* A doctype has a value, a processing instruction may have one, neither has
\* attributes or a body.
AfterName(s, m) ==
  LET j == OptWs(s, m.i) IN
  IF m.special = "pi" /\ At(s, j) # EQ THEN Go(m, "content", j, WsTok(m.i, j))
  ELSE IF m.special = "doctype" /\ At(s, j) # EQ THEN Fail(m, ErrDoctype, j)
  ELSE IF At(s, j) = LPAR
  THEN [Go(m, "attrs", j+1, WsTok(m.i, j) \o <<Tok("apar_left", j, j+1)>>) EXCEPT !.lastAttr = j]
  ELSE Go(m, "afterAttrs", j, WsTok(m.i, j))

AfterAttrs(s, m) ==
  LET j == OptWs(s, m.i)  w == WsTok(m.i, j) IN
  IF At(s, j) = EQ
  THEN [Go(m, "value", j+1, w \o <<Tok("equals", j, j+1)>>) EXCEPT !.ctx = "elem", !.lastEq = j]
  ELSE IF At(s, j) = LBRACE
  THEN [Go(m, "content", j+1, w \o <<Tok("brace_left", j, j+1)>>)
          EXCEPT !.depth = @ + 1, !.lastBody = j]
  ELSE Go(m, "content", j, w)

AttrsStep(s, m) ==
  LET c == At(s, m.i) IN
  IF c \in TokWs THEN Go(m, "attrs", WsEnd(s, m.i), WsTok(m.i, WsEnd(s, m.i)))
  ELSE IF c = RPAR THEN Go(m, "afterAttrs", m.i+1, <<Tok("apar_right", m.i, m.i+1)>>)
  ELSE IF c \in NameChars THEN DoAttrKey(s, m)
  ELSE IF c = TAB THEN Fail(m, ErrTab, m.i)
  ELSE Fail(m, ErrAttrsNotClosed, m.lastAttr)

\* Equals signs inside attribute lists are not landmarks for lost content.
AfterAttrKey(s, m) ==
  LET j == OptWs(s, m.i)  w == WsTok(m.i, j) IN
  IF At(s, j) = EQ
  THEN [Go(m, "value", j+1, w \o <<Tok("equals", j, j+1)>>) EXCEPT !.ctx = "attr"]
  ELSE Go(m, "attrs", j, w)

ValueNext(m) == IF m.ctx = "elem" THEN "content" ELSE "attrs"
ValueType(m, k) == (IF m.ctx = "elem" THEN "element_value_" ELSE "attr_value_") \o k

ValueStep(s, m) ==
  LET j == OptWs(s, m.i)  w == WsTok(m.i, j)  c == At(s, j)  mj == [m EXCEPT !.i = j]
      add(r) == IF r.pc = "error" THEN r ELSE [r EXCEPT !.emit = w \o @]
  IN
  IF m.special # "" /\ c \in {AMP, LPAR} THEN Fail(m, ErrValueStart, j)
  ELSE IF c = QUO THEN add(DoQuote(s, mj, ValueNext(m), ValueType(m, "quote")))
  ELSE IF c = AMP THEN add(DoEntity(s, mj, ValueNext(m), ValueType(m, "entity")))
  ELSE IF c = LPAR THEN add(Go(mj, "compound", j+1, <<Tok("cpar_left", j, j+1)>>))
  ELSE IF c = EQ \/ (c = SLASH /\ At(s, j+1) \in {SLASH, STAR}) THEN Fail(m, ErrValueStart, j)
  ELSE LET e == ValueEnd(s, j) IN
       Go(mj, ValueNext(m), e, w \o <<Tok(ValueType(m, "text"), j, e)>>)

CompoundStep(s, m) ==
  LET c == At(s, m.i) IN
  IF m.i > Len(s) THEN Fail(m, ErrCompoundNotClosed, m.i)
  ELSE IF c \in TokWs THEN Go(m, "compound", WsEnd(s, m.i), WsTok(m.i, WsEnd(s, m.i)))
  ELSE IF c = RPAR THEN Go(m, ValueNext(m), m.i+1, <<Tok("cpar_right", m.i, m.i+1)>>)
  ELSE IF c = QUO THEN DoQuote(s, m, "compound", ValueType(m, "compound_quote"))
  ELSE IF c = AMP THEN DoEntity(s, m, "compound", ValueType(m, "compound_entity"))
  ELSE IF c = TAB THEN Fail(m, ErrTab, m.i)
  ELSE Fail(m, ErrCompoundContent, m.i)

LexStep(s, m) ==
  CASE m.pc = "content"      -> ContentStep(s, m)
    [] m.pc = "comment"      -> CommentStep(s, m)
    [] m.pc = "afterName"    -> AfterName(s, m)
    [] m.pc = "afterAttrs"   -> AfterAttrs(s, m)
    [] m.pc = "attrs"        -> AttrsStep(s, m)
    [] m.pc = "afterAttrKey" -> AfterAttrKey(s, m)
    [] m.pc = "value"        -> ValueStep(s, m)
    [] m.pc = "compound"     -> CompoundStep(s, m)

-----------------------------------------------------------------------------
(* Runs of the machine, as functions *)

RECURSIVE LexRunFrom(_, _, _)
LexRunFrom(s, m, toks) ==
  IF LexFinal(m) THEN [m |-> m, toks |-> toks]
  ELSE LET x == LexStep(s, m) IN LexRunFrom(s, x, toks \o x.emit)

LexRun(s) == LexRunFrom(s, LexStart(s), <<>>)

-----------------------------------------------------------------------------
(* Properties of the machine itself *)

\* Every step consumes input or advances the control state: the reader always terminates.
Rank(m) == CASE m.pc = "afterName" -> 3 [] m.pc = "afterAttrs" -> 2
             [] m.pc = "afterAttrKey" -> 3 [] m.pc = "value" -> 2
             [] m.pc \in {"done", "error"} -> 0 [] OTHER -> 1
Progress(m, x) == x.i > m.i \/ Rank(x) < Rank(m)

\* The tokens of an accepted document cover it exactly, in order.
RECURSIVE Tiles(_, _, _, _)
Tiles(toks, k, from, to) ==
  IF k > Len(toks) THEN from = to
  ELSE toks[k].a = from /\ toks[k].b >= from /\ Tiles(toks, k+1, toks[k].b, to)
=============================================================================
