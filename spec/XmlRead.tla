------------------------------ MODULE XmlRead ------------------------------
(***************************************************************************)
(* Reader of xml texts (utf8, no internal dtd subset, namespaces): the     *)
(* document, as the events of XmqTree, or not well formed.  One step       *)
(* consumes one construct.                                                 *)
(***************************************************************************)
EXTENDS XmqDoc

LT == 60  GT == 62
XNameStart == (65..90) \cup (97..122) \cup {95} \cup (128..255)
XNameChar == XNameStart \cup (48..57) \cup {45, 46}
XWs == {32, 9, 10, 13}

RECURSIVE XSkip(_, _)
XSkip(s, i) == IF i <= Len(s) /\ s[i] \in XWs THEN XSkip(s, i+1) ELSE i
RECURSIVE XNameEnd(_, _)
XNameEnd(s, i) == IF i <= Len(s) /\ s[i] \in XNameChar THEN XNameEnd(s, i+1) ELSE i
XAt(s, i, lit) == i + Len(lit) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(lit) - 1) = lit
\* The first place at or after i where lit stands, 0 if there is none.
RECURSIVE XFind(_, _, _)
XFind(s, i, lit) == IF i + Len(lit) - 1 > Len(s) THEN 0 ELSE IF XAt(s, i, lit) THEN i ELSE XFind(s, i+1, lit)
RECURSIVE XTextEnd(_, _)
XTextEnd(s, i) == IF i > Len(s) \/ s[i] = LT THEN i ELSE XTextEnd(s, i+1)

\* A qualified name at i: [ok, i after it, prefix, name].
QName(s, i) ==
  LET a == IF i <= Len(s) /\ s[i] \in XNameStart THEN XNameEnd(s, i) ELSE i
      b == IF a <= Len(s) /\ s[a] = 58 /\ a < Len(s) /\ s[a+1] \in XNameStart THEN XNameEnd(s, a+1) ELSE a
  IN IF a = i \/ (b <= Len(s) /\ s[b] = 58) THEN [ok |-> FALSE, i |-> i, p |-> <<>>, n |-> <<>>]
     ELSE IF b = a THEN [ok |-> TRUE, i |-> a, p |-> <<>>, n |-> SubSeq(s, i, a-1)]
     ELSE [ok |-> TRUE, i |-> b, p |-> <<SubSeq(s, i, a-1)>>, n |-> SubSeq(s, a+1, b-1)]

Predefined == [lt |-> <<60>>, gt |-> <<62>>, amp |-> <<38>>, quot |-> <<34>>, apos |-> <<39>>]
PredefinedNames == << <<108,116>>, <<103,116>>, <<97,109,112>>, <<113,117,111,116>>, <<97,112,111,115>> >>
PredefinedTexts == << <<60>>, <<62>>, <<38>>, <<34>>, <<39>> >>
IsPredefined(n) == \E k \in 1..5 : PredefinedNames[k] = n
XmlChar(v) == v \in {9, 10, 13} \/ (v >= 32 /\ v <= 55295) \/ (v >= 57344 /\ v <= 65533) \/ (v >= 65536 /\ v <= 1114111)
\* The text of a reference without & and ;: a sequence of zero or one texts.
RefText(n) ==
  IF n # <<>> /\ n[1] = 35
  THEN LET hex == Len(n) >= 2 /\ n[2] = 120
           from == IF hex THEN 3 ELSE 2
           v == NumVal(n, from, IF hex THEN 16 ELSE 10, 0)
       IN IF from <= Len(n) /\ (\A k \in from..Len(n) : DigitVal(n[k]) < (IF hex THEN 16 ELSE 10)) /\ XmlChar(v) THEN <<Utf8(v)>> ELSE <<>>
  ELSE IF IsPredefined(n) THEN <<PredefinedTexts[CHOOSE k \in 1..5 : PredefinedNames[k] = n]>>
  ELSE <<>>

\* Text from i to before e with references and line ends resolved, or not ok.
RECURSIVE XText(_, _, _, _, _)
XText(s, i, e, attr, out) ==
  IF i >= e THEN [ok |-> TRUE, t |-> out]
  ELSE IF s[i] = AMP
  THEN LET z == XFind(s, i, <<59>>) IN
       IF z = 0 \/ z >= e THEN [ok |-> FALSE, t |-> <<>>]
       ELSE LET r == RefText(SubSeq(s, i+1, z-1)) IN
            IF r = <<>> THEN [ok |-> FALSE, t |-> <<>>] ELSE XText(s, z+1, e, attr, out \o r[1])
  ELSE IF s[i] = CR THEN XText(s, IF i+1 < e /\ s[i+1] = NL THEN i+2 ELSE i+1, e, attr, Append(out, IF attr THEN SP ELSE NL))
  ELSE IF s[i] < 32 /\ s[i] \notin {NL, TAB} THEN [ok |-> FALSE, t |-> <<>>]
  ELSE XText(s, i+1, e, attr, Append(out, IF attr /\ s[i] \in {NL, TAB} THEN SP ELSE s[i]))

Xmlns == <<120,109,108,110,115>>
\* The attributes at i: [ok, i, ns, attrs].
RECURSIVE XAttrs(_, _, _, _)
XAttrs(s, i0, ns, attrs) ==
  LET i == XSkip(s, i0)  bad == [ok |-> FALSE, i |-> i, ns |-> <<>>, attrs |-> <<>>] IN
  IF i > Len(s) THEN bad
  ELSE IF s[i] \in {GT, 47} THEN [ok |-> TRUE, i |-> i, ns |-> ns, attrs |-> attrs]
  ELSE LET q == QName(s, i)
           eq == XSkip(s, q.i)
           v == XSkip(s, eq+1)
       IN IF ~q.ok \/ i = i0 \/ eq > Len(s) \/ s[eq] # 61 \/ v > Len(s) \/ s[v] \notin {DQ, 39} THEN bad
          ELSE LET z == XFind(s, v+1, <<s[v]>>) IN
               IF z = 0 \/ \E k \in v+1..z-1 : s[k] = LT THEN bad
               ELSE LET t == XText(s, v+1, z, TRUE, <<>>)
                        kids == <<<<"T", t.t>>>>
                    IN IF ~t.ok THEN bad
                       ELSE IF q.p = <<Xmlns>> \/ (q.p = <<>> /\ q.n = Xmlns)
                       THEN LET p == IF q.p = <<>> THEN <<>> ELSE <<q.n>> IN
                            IF \E k \in 1..Len(ns) : ns[k][2] = p /\ ns[k][3] # <<<<>>>> /\ t.t # <<>> THEN bad
                            ELSE XAttrs(s, z+1, Append(ns, <<"N", p, <<t.t>>>>), attrs)
                       ELSE IF \E k \in 1..Len(attrs) : attrs[k][2] = q.n /\ attrs[k][3] = q.p THEN bad
                       ELSE XAttrs(s, z+1, ns, Append(attrs, <<"A", q.n, q.p, kids, <<>>>>))

CommentOpen == <<60,33,45,45>>  CdataOpen == <<60,33,91,67,68,65,84,65,91>>
\* stack: the raw names of the open elements; roots: root elements seen so far.
XBad == [ok |-> FALSE, ev |-> <<>>]
RECURSIVE XStep(_, _, _, _, _)
XStep(s, i, stack, roots, out) ==
  IF i > Len(s) THEN [ok |-> stack = <<>> /\ roots = 1, ev |-> out]
  ELSE IF s[i] # LT
  THEN LET e == XTextEnd(s, i) t == XText(s, i, e, FALSE, <<>>) IN
       IF ~t.ok THEN XBad
       ELSE IF stack = <<>> THEN (IF \A k \in i..e-1 : s[k] \in XWs THEN XStep(s, e, stack, roots, out) ELSE XBad)
       ELSE IF XFind(SubSeq(s, i, e-1), 1, <<93,93,62>>) # 0 THEN XBad
       ELSE XStep(s, e, stack, roots, AddText(out, TRUE, t.t))
  ELSE IF XAt(s, i, CommentOpen)
  THEN LET z == XFind(s, i+4, <<45,45>>) IN
       IF z = 0 \/ ~XAt(s, z, <<45,45,62>>) THEN XBad
       ELSE LET t == XText([k \in 1..z-1 |-> IF s[k] = AMP THEN 1 ELSE s[k]], i+4, z, FALSE, <<>>) IN
            XStep(s, z+3, stack, roots, Append(out, <<"C", SubSeq(s, i+4, z-1)>>))
  ELSE IF XAt(s, i, CdataOpen)
  THEN LET z == XFind(s, i+9, <<93,93,62>>) IN
       IF z = 0 \/ stack = <<>> THEN XBad ELSE XStep(s, z+3, stack, roots, IF z = i+9 THEN out ELSE AddText(out, TRUE, SubSeq(s, i+9, z-1)))
  ELSE IF XAt(s, i, <<60,63>>)
  THEN LET q == QName(s, i+2)  z == XFind(s, q.i, <<63,62>>)  b == XSkip(s, q.i) IN
       IF ~q.ok \/ q.p # <<>> \/ z = 0 \/ (b = q.i /\ z # q.i) THEN XBad
       ELSE IF q.n = XmlPrefix THEN (IF i = 1 /\ b > q.i /\ XAt(s, b, <<118,101,114,115,105,111,110,61>>) THEN XStep(s, z+2, stack, roots, out) ELSE XBad)
       ELSE XStep(s, z+2, stack, roots, Append(out, <<"P", q.n, SubSeq(s, b, z-1)>>))
  ELSE IF XAt(s, i, SubSeq(DoctypeOpen, 1, 9))
  THEN LET b == XSkip(s, i+9)  q == QName(s, b)  z == XSkip(s, q.i) IN   \* the internal subset and external ids are not modelled
       IF ~q.ok \/ b = i+9 \/ z > Len(s) \/ s[z] # GT \/ stack # <<>> \/ roots > 0 \/ \E k \in 1..Len(out) : out[k][1] = "D" THEN XBad
       ELSE XStep(s, z+1, stack, roots, Append(out, <<"D", DoctypeOpen \o SubSeq(s, b, q.i-1) \o <<GT>>>>))
  ELSE IF XAt(s, i, <<60,47>>)
  THEN LET q == QName(s, i+2)  z == XSkip(s, q.i) IN
       IF ~q.ok \/ z > Len(s) \/ s[z] # GT \/ stack = <<>> THEN XBad
       ELSE IF stack[Len(stack)] # <<q.p, q.n>> THEN XBad
       ELSE XStep(s, z+1, SubSeq(stack, 1, Len(stack)-1), roots, Append(out, <<")">>))
  ELSE LET q == QName(s, i+1) IN
       IF ~q.ok \/ (stack = <<>> /\ roots > 0) THEN XBad
       ELSE LET a == XAttrs(s, q.i, <<>>, <<>>)
                open == <<<<"E", q.n, q.p, <<>>>>>> \o a.ns \o a.attrs
                r == IF stack = <<>> THEN roots + 1 ELSE roots
            IN IF ~a.ok THEN XBad
               ELSE IF s[a.i] = GT THEN XStep(s, a.i+1, Append(stack, <<q.p, q.n>>), r, out \o open)
               ELSE IF XAt(s, a.i, <<47,62>>) THEN XStep(s, a.i+2, stack, r, out \o open \o <<<<")">>>>)
               ELSE XBad

\* Comments that hold two dashes are written with a mark between them.
Dle == <<226,144,144>>
RECURSIVE Unmark(_, _)
Unmark(t, k) == IF k > Len(t) THEN <<>>
                ELSE IF t[k] = 45 /\ XAt(t, k+1, Dle) THEN <<45>> \o Unmark(t, k+4)
                ELSE <<t[k]>> \o Unmark(t, k+1)

\* A prefix declared to be in no namespace is an error of the namespace layer only.
EmptyPrefixed(ev) == \E k \in 1..Len(ev) : ev[k][1] = "N" /\ ev[k][2] # <<>> /\ ev[k][3] = <<<<>>>>

XmlParse(s) ==
  LET x == XStep(s, 1, <<>>, 0, <<>>) IN
  IF ~x.ok THEN [ok |-> FALSE, unspec |-> FALSE, ev |-> <<>>]
  ELSE LET ev == Resolved([k \in 1..Len(x.ev) |-> IF x.ev[k][1] = "C" THEN <<"C", Unmark(x.ev[k][2], 1)>> ELSE x.ev[k]], 1, <<>>)
       IN [ok |-> TRUE, unspec |-> ~PrefixesDeclared(ev) \/ EmptyPrefixed(ev), ev |-> ev]

\* What is left of a document when its whitespace is trimmed: texts and comments without anything but whitespace
\* go, incidental indentation goes.
TrimNode(e) ==
  IF e[1] \in {"T", "C"}
  THEN IF \A k \in 1..Len(e[2]) : e[2][k] \in XWs THEN <<>>
       ELSE LET t == XmlTrimText(e[2]) IN IF t = <<>> THEN <<>> ELSE <<<<e[1], t>>>>
  ELSE <<e>>
RECURSIVE Trimmed(_, _)
Trimmed(ev, k) == IF k > Len(ev) THEN <<>> ELSE TrimNode(ev[k]) \o Trimmed(ev, k+1)

-----------------------------------------------------------------------------
(* The xml view of a document: references to characters are texts.          *)
RefView(e) == IF e[1] # "R" THEN e
              ELSE LET r == RefText(e[2]) IN IF r = <<>> THEN e ELSE <<"T", r[1]>>
XmlView(ev) == [k \in 1..Len(ev) |-> IF ev[k][1] = "A" THEN <<"A", ev[k][2], ev[k][3], [j \in 1..Len(ev[k][4]) |-> RefView(ev[k][4][j])], ev[k][5]>>
                                    ELSE RefView(ev[k])]

\* Can the document be written as xml at all: a single root with nothing but comments and processing
\* instructions around it, xml characters, known entities, and nothing that would end a construct early.
RECURSIVE TopLevel(_, _, _)
TopLevel(ev, k, d) ==
  IF k > Len(ev) THEN <<>>
  ELSE LET x == ev[k][1] IN
       (IF d = 0 /\ x \in {"E", "T", "R"} THEN <<x>> ELSE <<>>)
       \o TopLevel(ev, k+1, IF x = "E" THEN d+1 ELSE IF x = ")" THEN d-1 ELSE d)
XmlText(t) == \A k \in 1..Len(t) : t[k] >= 32 \/ t[k] \in {9, 10, 13}
XmlNode(e) ==
  CASE e[1] = "T" -> XmlText(e[2])
    [] e[1] = "R" -> RefText(e[2]) # <<>>
    [] e[1] = "C" -> XmlText(e[2]) /\ CR \notin {e[2][k] : k \in 1..Len(e[2])}
    [] e[1] = "P" -> XmlText(e[3]) /\ XFind(e[3], 1, <<63,62>>) = 0 /\ (e[3] # <<>> => e[3][1] \notin XWs) /\ e[2] # XmlPrefix
    [] e[1] = "N" -> ~(e[2] # <<>> /\ e[3] = <<<<>>>>)
    [] e[1] = "A" -> \A j \in 1..Len(e[4]) : IF e[4][j][1] = "T" THEN XmlText(e[4][j][2]) ELSE RefText(e[4][j][2]) # <<>>
    [] OTHER -> TRUE
XmlAble(ev) == TopLevel(ev, 1, 0) = <<"E">> /\ \A k \in 1..Len(ev) : XmlNode(ev[k])
=============================================================================
