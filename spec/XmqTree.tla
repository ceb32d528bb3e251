------------------------------ MODULE XmqTree ------------------------------
(***************************************************************************)
(* The document that a token stream describes.  A document is a sequence   *)
(* of events in document order:                                            *)
(*   <<"E", name, prefix, href>>  element start <<")">>  element end       *)
(*   <<"N", prefix, href>>  namespace declaration of the element (with href)*)
(*   <<"A", name, prefix, kids, href>> attribute, kids a sequence of T, R  *)
(*   <<"T", text>> <<"R", entity>> <<"C", comment>> <<"P", target, text>>  *)
(*   <<"D", doctype>>                                                      *)
(* A prefix or href is a sequence of zero or one byte strings, the href of *)
(* an element or attribute is the namespace that its prefix resolves to.   *)
(*                                                                         *)
(* Build consumes one token and updates the document under construction:   *)
(* ev the events, cur the element whose attributes and value are being     *)
(* read, stack the namespaces declared by each open element.               *)
(***************************************************************************)
EXTENDS XmqLex, XmqText

NoCur == [on |-> FALSE, name |-> <<>>, prefix |-> <<>>, ns |-> <<>>, attrs |-> <<>>, kids |-> <<>>]

TreeStart(root, merge) ==
  [ev |-> <<>>, cur |-> NoCur, stack |-> <<>>, root |-> root, merge |-> merge, wrapped |-> FALSE,
   first |-> TRUE, ens |-> <<>>, ans |-> <<>>, decl |-> 0, mode |-> "none", target |-> <<>>, unspec |-> FALSE]

\* Append a text to a sequence of nodes, merging with an adjacent text.
AddText(kids, merge, t) ==
  IF merge /\ kids # <<>> /\ kids[Len(kids)][1] = "T"
  THEN [kids EXCEPT ![Len(kids)] = <<"T", @[2] \o t>>]
  ELSE Append(kids, <<"T", t>>)

XmlPrefix == <<120,109,108>>
XmlHref == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,88,77,76,47,49,57,57,56,47,110,97,109,101,115,112,97,99,101>>

\* A prefix that was only used, and got no href, is not declared.
Declared(ns) == SelectSeq(ns, LAMBDA x : x.href # <<>>)

\* The namespace of a prefix: the innermost declaration of it. The default namespace
\* can be undeclared with an empty href.
RECURSIVE Resolve(_, _, _)
Resolve(stack, k, p) ==
  IF k = 0 THEN <<>>
  ELSE LET d == {j \in 1..Len(stack[k]) : stack[k][j].prefix = p} IN
       IF d = {} THEN Resolve(stack, k-1, p)
       ELSE LET h == stack[k][CHOOSE j \in d : TRUE].href IN
            IF p = <<>> /\ h = <<<<>>>> THEN <<>> ELSE h
HrefOf(stack, p) == IF p = <<XmlPrefix>> THEN <<XmlHref>> ELSE Resolve(stack, Len(stack), p)

OpenEvents(stack, c) ==
  LET d == Declared(c.ns)  st == Append(stack, d) IN
  <<<<"E", c.name, c.prefix, HrefOf(st, c.prefix)>>>>
  \o [k \in 1..Len(d) |-> <<"N", d[k].prefix, d[k].href>>]
  \o [k \in 1..Len(c.attrs) |->
        <<"A", c.attrs[k].name, c.attrs[k].prefix, c.attrs[k].kids,
          IF c.attrs[k].prefix = <<>> THEN <<>> ELSE HrefOf(st, c.attrs[k].prefix)>>]

\* The element being read ends here (it had no body).
CloseCur(b) == IF b.cur.on THEN [b EXCEPT !.ev = @ \o OpenEvents(b.stack, b.cur) \o b.cur.kids \o <<<<")">>>>, !.cur = NoCur] ELSE b

InScope(b, p) == \/ p = <<XmlPrefix>>
                 \/ \E k \in 1..Len(b.cur.ns) : b.cur.ns[k].prefix = p
                 \/ \E k \in 1..Len(b.stack) : \E j \in 1..Len(b.stack[k]) : b.stack[k][j].prefix = p
\* Using a prefix that nothing declares yet declares it, its href may follow.
Use(b, p) == IF p = <<>> \/ InScope(b, p) THEN b ELSE [b EXCEPT !.cur.ns = Append(@, [prefix |-> p, href |-> <<>>])]

Declare(b, p) ==
  LET own == {k \in 1..Len(b.cur.ns) : b.cur.ns[k].prefix = p} IN
  IF own # {} THEN [b EXCEPT !.decl = CHOOSE k \in own : TRUE]
  ELSE [b EXCEPT !.cur.ns = Append(@, [prefix |-> p, href |-> <<>>]), !.decl = Len(b.cur.ns) + 1]

Utf8(n) ==
  IF n > 1114111 THEN <<239,191,189>>
  ELSE IF n <= 127 THEN (IF n = 0 THEN <<>> ELSE <<n>>)
  ELSE IF n <= 2047 THEN <<192 + n \div 64, 128 + (n % 64)>>
  ELSE IF n <= 65535 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
  ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>

DigitVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
\* Value of the digits at i, saturated just above the last code point.
RECURSIVE NumVal(_, _, _, _)
NumVal(s, i, base, v) ==
  IF i > Len(s) \/ DigitVal(s[i]) >= base THEN v
  ELSE NumVal(s, i+1, base, IF v > 1114111 THEN v ELSE v * base + DigitVal(s[i]))

EntityBody(t) == SubSeq(t, 2, IF t[Len(t)] = 59 THEN Len(t)-1 ELSE Len(t))
IsCharRef(t) == Len(t) >= 2 /\ t[2] = 35
CharRefValue(t) == IF Len(t) >= 3 /\ t[3] = 120 THEN NumVal(t, 4, 16, 0) ELSE NumVal(t, 3, 10, 0)
\* A character entity without digits, or for the null character, has no meaning.
CharRefOk(t) == CharRefValue(t) > 0 /\ t[Len(t)] = 59
                /\ \A k \in (IF Len(t) >= 3 /\ t[3] = 120 THEN 4 ELSE 3)..Len(t)-1 :
                      DigitVal(t[k]) < (IF t[3] = 120 THEN 16 ELSE 10)

AddEntity(kids, merge, t) ==
  IF IsCharRef(t) /\ merge THEN AddText(kids, merge, Utf8(CharRefValue(t)))
  ELSE Append(kids, <<"R", EntityBody(t)>>)

\* Is a space needed, a processing instruction cannot start or end with a quote.
PiText(t) == (IF t # <<>> /\ t[1] = QUO THEN <<SP>> ELSE <<>>) \o t \o (IF t # <<>> /\ t[Len(t)] = QUO THEN <<SP>> ELSE <<>>)

DoctypeOpen == <<60,33,68,79,67,84,89,80,69,32>>

Top(b) == b.stack = <<>>

StartElement(b0, name, key) ==
  LET b == CloseCur(b0) IN
  IF name = DocTypeWord
  THEN [b EXCEPT !.mode = "doctype", !.unspec = @ \/ b.ens # <<>> \/ ~Top(b) \/ \E k \in 1..Len(b.ev) : b.ev[k][1] \in {"E", "D", "T", "R"}]
  ELSE IF name # <<>> /\ name[1] = QMARK
  THEN LET x == [b EXCEPT !.unspec = @ \/ Len(name) = 1 \/ b.ens # <<>>] IN
       IF key THEN [x EXCEPT !.mode = "pi", !.target = Tail(name)]
       ELSE [x EXCEPT !.ev = Append(@, <<"P", Tail(name), <<>>>>)]
  ELSE LET wrap == b.first /\ b.root # <<>> /\ b.root[1] # name
           c == [NoCur EXCEPT !.on = TRUE, !.name = name]
           w == IF wrap THEN [b EXCEPT !.ev = @ \o <<<<"E", b.root[1], <<>>, <<>>>>>>, !.stack = << <<>> >>, !.wrapped = TRUE] ELSE b
           x == [w EXCEPT !.first = FALSE, !.cur = c, !.ens = <<>>, !.unspec = @ \/ name = <<>>]
           y == Use(x, b.ens)
       IN [y EXCEPT !.cur.prefix = b.ens]

ContentText(b0, t) == LET b == CloseCur(b0) IN [b EXCEPT !.ev = AddText(@, b.merge, t)]

\* A doctype is a name, if quoted possibly with an external id in its canonical form.
DoctypeName(t) == t # <<>> /\ t[1] \in StartChars /\ \A k \in 1..Len(t) : t[k] \in NameChars \ {35}
SystemWord == <<32,83,89,83,84,69,77,32,34>>
PublicWord == <<32,80,85,66,76,73,67,32,34>>
StartsAt(t, z, u) == z + Len(u) - 1 <= Len(t) /\ SubSeq(t, z, z + Len(u) - 1) = u
IdChars == NameChars \ {35}
DoctypeOk(t, quoted) ==
  \/ DoctypeName(t)
  \/ quoted /\ \E z \in 2..Len(t) :
       /\ t[z] = SP /\ DoctypeName(SubSeq(t, 1, z-1))
       /\ LET y == z + 9 IN
          \/ /\ StartsAt(t, z, SystemWord) /\ t[Len(t)] = DQ /\ Len(t) > y
             /\ \A k \in y..Len(t)-1 : t[k] \in IdChars
          \/ /\ StartsAt(t, z, PublicWord) /\ t[Len(t)] = DQ
             /\ \E v \in y+1..Len(t)-4 : /\ StartsAt(t, v, <<34,32,34>>)
                                        /\ \A k \in (y..v-1) \cup (v+3..Len(t)-1) : t[k] \in IdChars

\* The value of a processing instruction or of a doctype.
SpecialValue(b, t, quoted) ==
  IF b.mode = "pi"
  THEN [b EXCEPT !.ev = Append(@, <<"P", b.target, PiText(t)>>), !.mode = "none"]
  ELSE [b EXCEPT !.ev = Append(@, <<"D", DoctypeOpen \o t \o <<62>>>>), !.mode = "none",
                 !.unspec = @ \/ ~DoctypeOk(t, quoted)]

LastAttr(b) == Len(b.cur.attrs)

\* The xml prefix cannot be changed.
SetHref(b, t) == IF b.cur.ns[b.decl].prefix = <<XmlPrefix>> THEN [b EXCEPT !.decl = 0]
                 ELSE [b EXCEPT !.cur.ns[b.decl].href = <<t>>, !.decl = 0]
AddHref(b, t) == LET h == b.cur.ns[b.decl].href IN
                 [SetHref(b, (IF h = <<>> THEN <<>> ELSE h[1]) \o t) EXCEPT !.decl = b.decl]

Build(s, b, tok, next) ==
  LET t == SubSeq(s, tok.a, tok.b - 1)
      col == PosOf(s, tok.a)[2]
      ty == tok.t
      bad == [b EXCEPT !.unspec = TRUE]
  IN
  CASE ty = "whitespace" -> b
    [] ty = "element_ns" -> [CloseCur(b) EXCEPT !.ens = <<t>>, !.unspec = @ \/ t = <<>>]
    [] ty \in {"element_name", "element_key"} -> StartElement(b, t, ty = "element_key")
    [] ty = "brace_left" ->
         [b EXCEPT !.ev = @ \o OpenEvents(b.stack, b.cur), !.stack = Append(@, Declared(b.cur.ns)), !.cur = NoCur]
    [] ty = "brace_right" ->
         LET x == CloseCur(b) IN [x EXCEPT !.ev = Append(@, <<")">>), !.stack = SubSeq(@, 1, Len(@)-1)]
    [] ty = "apar_left" -> b
    [] ty = "ns_declaration" ->
         IF next = "ns_colon" THEN b ELSE Declare(b, <<>>)
    [] ty = "attr_ns" ->
         \* after xmlns: the prefix being declared, otherwise the prefix of the attribute
         IF next = "ns_colon" THEN [b EXCEPT !.ans = <<t>>, !.decl = 0, !.unspec = @ \/ t = <<>>]
         ELSE IF t = <<>> THEN bad ELSE Declare(b, <<t>>)
    [] ty = "attr_key" ->
         LET x == Use(b, b.ans) IN
         [x EXCEPT !.cur.attrs = Append(@, [name |-> t, prefix |-> b.ans, kids |-> <<>>]), !.ans = <<>>, !.decl = 0,
                   !.unspec = @ \/ t = <<>>]
    [] ty = "apar_right" -> [b EXCEPT !.decl = 0]
    [] ty = "quote" -> ContentText(b, QuoteText(t, col))
    [] ty = "entity" -> LET x == CloseCur(b) IN
                        [x EXCEPT !.ev = AddEntity(@, x.merge, t), !.unspec = @ \/ (IsCharRef(t) /\ ~CharRefOk(t))]
    [] ty = "comment" -> LET x == CloseCur(b) IN [x EXCEPT !.ev = Append(@, <<"C", CommentText(t, col)>>)]
    [] ty = "comment_continuation" -> [b EXCEPT !.ev[Len(b.ev)] = <<"C", @[2] \o <<NL>> \o ContinuationText(t, col)>>]
    [] ty = "element_value_text" ->
         IF b.mode # "none" THEN SpecialValue(b, t, FALSE) ELSE [b EXCEPT !.cur.kids = AddText(@, TRUE, t)]
    [] ty = "element_value_quote" ->
         IF b.mode # "none" THEN SpecialValue(b, QuoteText(t, col), TRUE)
         ELSE [b EXCEPT !.cur.kids = AddText(@, TRUE, QuoteText(t, col))]
    [] ty = "element_value_compound_quote" ->
         [b EXCEPT !.cur.kids = AddText(@, b.merge, QuoteText(t, col))]
    [] ty \in {"element_value_entity", "element_value_compound_entity"} ->
         [b EXCEPT !.cur.kids = AddEntity(@, b.merge, t), !.unspec = @ \/ (IsCharRef(t) /\ ~CharRefOk(t))]
    [] ty = "attr_value_text" ->
         IF b.decl # 0 THEN SetHref(b, t)
         ELSE [b EXCEPT !.cur.attrs[LastAttr(b)].kids = AddText(@, TRUE, t)]
    [] ty = "attr_value_quote" ->
         IF b.decl # 0 THEN SetHref(b, QuoteText(t, col))
         ELSE [b EXCEPT !.cur.attrs[LastAttr(b)].kids = AddText(@, TRUE, QuoteText(t, col))]
    [] ty = "attr_value_compound_quote" ->
         IF b.decl # 0 THEN AddHref(b, QuoteText(t, col))
         ELSE [b EXCEPT !.cur.attrs[LastAttr(b)].kids = AddText(@, b.merge, QuoteText(t, col))]
    [] ty \in {"attr_value_entity", "attr_value_compound_entity"} ->
         IF b.decl # 0
         THEN [AddHref(b, IF IsCharRef(t) THEN Utf8(CharRefValue(t)) ELSE t) EXCEPT !.unspec = @ \/ ~IsCharRef(t) \/ ~CharRefOk(t)]
         ELSE [b EXCEPT !.cur.attrs[LastAttr(b)].kids = AddEntity(@, b.merge, t),
                        !.unspec = @ \/ (IsCharRef(t) /\ ~CharRefOk(t))]
    [] OTHER -> b

TreeEnd(b0) ==
  LET b == CloseCur(b0) IN
  [b EXCEPT !.ev = IF b.wrapped THEN Append(@, <<")">>) ELSE @, !.unspec = @ \/ b.mode # "none"]

RECURSIVE BuildSome(_, _, _, _)
BuildSome(s, b, toks, k) ==
  IF k > Len(toks) THEN b
  ELSE BuildSome(s, Build(s, b, toks[k], IF k < Len(toks) THEN toks[k+1].t ELSE ""), toks, k+1)

RECURSIVE BuildAll(_, _, _, _)
BuildAll(s, b, toks, k) ==
  IF k > Len(toks) THEN TreeEnd(b)
  ELSE BuildAll(s, Build(s, b, toks[k], IF k < Len(toks) THEN toks[k+1].t ELSE ""), toks, k+1)

\* The document a text describes: [ok, err, at, susp, ev, unspec].
ParseWith(s, root, merge) ==
  LET r == LexRun(s) IN
  IF r.m.pc = "error" THEN [ok |-> FALSE, err |-> r.m.err, at |-> r.m.at, susp |-> r.m.susp, ev |-> <<>>,
                                      \* undefined as well if what precedes the error is
                                      unspec |-> \E k \in 1..Len(r.toks) : r.toks[k].t = "element_value_quote" /\ BuildSome(s, TreeStart(root, merge), r.toks, 1).unspec]
  ELSE LET b == BuildAll(s, TreeStart(root, merge), r.toks, 1)
       IN [ok |-> TRUE, err |-> 0, at |-> 0, susp |-> 0, ev |-> b.ev, unspec |-> b.unspec]
Parse(s) == ParseWith(s, <<>>, TRUE)

-----------------------------------------------------------------------------
(* Well formedness of documents: elements nest. *)
RECURSIVE Balanced(_, _, _)
Balanced(ev, k, d) ==
  IF k > Len(ev) THEN d = 0
  ELSE IF ev[k][1] = "E" THEN Balanced(ev, k+1, d+1)
  ELSE IF ev[k][1] = ")" THEN d > 0 /\ Balanced(ev, k+1, d-1)
  ELSE Balanced(ev, k+1, d)
=============================================================================
