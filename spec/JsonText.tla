------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* Json texts (RFC 8259), the values they hold, and the documents that     *)
(* these values are.  A value is a sequence of                             *)
(*   <<"{">> <<"K", key>> value .. <<"}">>   <<"[">> value .. <<"]">>       *)
(*   <<"S", text>>   <<"L", literal>>  a number, true, false or null        *)
(* Keys and texts are decoded, a literal is kept as it is written.         *)
(***************************************************************************)
EXTENDS XmqDoc

JWs == {32, 9, 10, 13}
LOCAL BSL == 92
RECURSIVE JSkip(_, _)
JSkip(s, i) == IF i <= Len(s) /\ s[i] \in JWs THEN JSkip(s, i+1) ELSE i
RECURSIVE JDigits(_, _)
JDigits(s, i) == IF i <= Len(s) /\ s[i] \in Digits THEN JDigits(s, i+1) ELSE i

\* The end of the number at i, 0 if there is none.
JNumber(s, i) ==
  LET a == IF At(s, i) = 45 THEN i+1 ELSE i
      b == IF At(s, a) = 48 THEN a+1 ELSE JDigits(s, a)
      c == IF At(s, b) = 46 THEN JDigits(s, b+1) ELSE b
      e == IF At(s, c) \in {101, 69} THEN (IF At(s, c+1) \in {43, 45} THEN c+2 ELSE c+1) ELSE c
      f == IF e > c THEN JDigits(s, e) ELSE c
  IN IF b = a \/ c = b+1 \/ (e > c /\ f = e) THEN 0 ELSE f

Hex4(s, i) == IF i+3 <= Len(s) /\ \A k \in i..i+3 : DigitVal(s[k]) < 16
              THEN ((DigitVal(s[i])*16 + DigitVal(s[i+1]))*16 + DigitVal(s[i+2]))*16 + DigitVal(s[i+3]) ELSE -1
High(n) == n \in 55296..56319
Low(n) == n \in 56320..57343
EscChar(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
Escapes == {34, BSL, 47, 98, 102, 110, 114, 116}

\* The string whose first character is at i: [i, t, un], after the closing quote, 0 if it is not a string. What a
\* verbatim control character, an escaped null or half a surrogate pair is, is undefined.
RECURSIVE JString(_, _, _, _)
JString(s, i, t, un) ==
  IF i > Len(s) THEN [i |-> 0, t |-> <<>>, un |-> un]
  ELSE IF s[i] = DQ THEN [i |-> i+1, t |-> t, un |-> un]
  ELSE IF s[i] # BSL THEN JString(s, i+1, Append(t, s[i]), un \/ s[i] < 32)
  ELSE IF At(s, i+1) \in Escapes THEN JString(s, i+2, Append(t, EscChar(s[i+1])), un)
  ELSE LET n == IF At(s, i+1) = 117 THEN Hex4(s, i+2) ELSE -1
           m == IF High(n) /\ At(s, i+6) = BSL /\ At(s, i+7) = 117 THEN Hex4(s, i+8) ELSE -1
       IN IF n < 0 THEN [i |-> 0, t |-> <<>>, un |-> un]
          ELSE IF Low(m) THEN JString(s, i+12, t \o Utf8(65536 + ((n - 55296) * 1024) + (m - 56320)), un)
          ELSE JString(s, i+6, t \o Utf8(n), un \/ n = 0 \/ High(n) \/ Low(n))

JWords == {<<116,114,117,101>>, <<102,97,108,115,101>>, <<110,117,108,108>>}
WordAt(s, i) == {u \in JWords : i + Len(u) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(u) - 1) = u}
JBad(un) == [i |-> 0, ev |-> <<>>, un |-> un]

\* The value at i: [i, ev, un], i is the position after it, 0 if there is no value. A comma before a closing
\* bracket is undefined.
RECURSIVE JValue(_, _), JItems(_, _, _, _), JMembers(_, _, _, _)
JValue(s, i0) ==
  LET i == JSkip(s, i0)  c == At(s, i)  n == JNumber(s, i) IN
  CASE c = DQ -> LET r == JString(s, i+1, <<>>, FALSE) IN [i |-> r.i, ev |-> <<<<"S", r.t>>>>, un |-> r.un]
    [] WordAt(s, i) # {} -> LET u == CHOOSE u \in WordAt(s, i) : TRUE IN [i |-> i + Len(u), ev |-> <<<<"L", u>>>>, un |-> FALSE]
    [] n > 0 -> [i |-> n, ev |-> <<<<"L", SubSeq(s, i, n-1)>>>>, un |-> FALSE]
    [] c = 123 -> LET j == JSkip(s, i+1) IN IF At(s, j) = 125 THEN [i |-> j+1, ev |-> <<<<"{">>, <<"}">>>>, un |-> FALSE] ELSE JMembers(s, j, <<<<"{">>>>, FALSE)
    [] c = 91 -> LET j == JSkip(s, i+1) IN IF At(s, j) = 93 THEN [i |-> j+1, ev |-> <<<<"[">>, <<"]">>>>, un |-> FALSE] ELSE JItems(s, j, <<<<"[">>>>, FALSE)
    [] OTHER -> JBad(FALSE)
JItems(s, i, ev, un) ==
  LET v == JValue(s, i)  j == JSkip(s, v.i)  k == JSkip(s, j+1) IN
  IF v.i = 0 THEN JBad(un \/ v.un)
  ELSE IF At(s, j) = 93 THEN [i |-> j+1, ev |-> ev \o v.ev \o <<<<"]">>>>, un |-> un \/ v.un]
  ELSE IF At(s, j) # 44 THEN JBad(un \/ v.un)
  ELSE IF At(s, k) = 93 THEN [i |-> k+1, ev |-> ev \o v.ev \o <<<<"]">>>>, un |-> TRUE]
  ELSE JItems(s, k, ev \o v.ev, un \/ v.un)
JMembers(s, i, ev, un) ==
  LET k == IF At(s, i) = DQ THEN JString(s, i+1, <<>>, FALSE) ELSE [i |-> 0, t |-> <<>>, un |-> FALSE]
      c == JSkip(s, k.i)
      v == IF k.i > 0 /\ At(s, c) = 58 THEN JValue(s, c+1) ELSE JBad(FALSE)
      j == JSkip(s, v.i)  n == JSkip(s, j+1)
      u == un \/ k.un \/ v.un
      e == ev \o <<<<"K", k.t>>>> \o v.ev
  IN
  IF v.i = 0 THEN JBad(u)
  ELSE IF At(s, j) = 125 THEN [i |-> j+1, ev |-> e \o <<<<"}">>>>, un |-> u]
  ELSE IF At(s, j) # 44 THEN JBad(u)
  ELSE IF At(s, n) = 125 THEN [i |-> n+1, ev |-> e \o <<<<"}">>>>, un |-> TRUE]
  ELSE JMembers(s, n, e, u)

JsonParse(s) ==
  LET v == JValue(s, 1) IN
  IF v.i = 0 \/ JSkip(s, v.i) <= Len(s) THEN [ok |-> FALSE, ev |-> <<>>, un |-> v.un] ELSE [ok |-> TRUE, ev |-> v.ev, un |-> v.un]

-----------------------------------------------------------------------------
(* The document that a value is.  The root and the items of an array have no *)
(* key, they are elements named _, other elements are named by their keys.   *)
(* The attribute A marks an array, S a string that looks like a literal and  *)
(* _ holds a key that is not the name of an element.                         *)

NameText == NameChars
Colons(t) == {k \in 1..Len(t) : t[k] = 58}
ElementName(t) == /\ t # <<>> /\ t[1] \in StartChars /\ \A k \in 1..Len(t) : t[k] \in NameText
                  /\ Cardinality(Colons(t)) <= 1 /\ \A k \in Colons(t) : k < Len(t) /\ t[k+1] \in StartChars
UL == <<95>>
MarkA == <<65>>
MarkS == <<83>>
Bar == <<124>>
SlSl == <<47,47>>
UlSlSl == <<95,47,47>>
Xmlns == <<120,109,108,110,115>>
SafeKey(t) == ElementName(t) /\ t # UL
AttrKey(t) == Len(t) > 1 /\ t[1] = 95 /\ ElementName(t) /\ t \notin {<<95,95>>, <<95,65>>, <<95,83>>} /\ t[2] # 58
\* An index, added to keys that would otherwise be the same, is not part of the key.
KeyTrim(t) ==
  LET z == IF t # <<>> /\ t[Len(t)] = 93 THEN CHOOSE k \in 0..Len(t)-1 : (k = 0 \/ t[k] \notin Digits) /\ \A x \in k+1..Len(t)-1 : t[x] \in Digits ELSE 0
  IN IF z > 1 /\ z < Len(t) - 1 /\ t[z] = 91 THEN SubSeq(t, 1, z-1) ELSE t

Local(t) == IF Colons(t) = {} THEN t ELSE SubSeq(t, (CHOOSE k \in Colons(t) : TRUE) + 1, Len(t))
Prefix(t) == IF Colons(t) = {} THEN <<>> ELSE <<SubSeq(t, 1, (CHOOSE k \in Colons(t) : TRUE) - 1)>>
Mark(n, v) == <<"A", n, <<>>, v, <<>>>>
\* An element under construction, kind is { [ or S for a scalar, with the key, if it has one.
Frame(kind, key, member) ==
  LET named == key # <<>> /\ key[1] # <<>>
      unsafe == named /\ ~SafeKey(key[1])
  IN [kind |-> kind, member |-> member, name |-> IF ~named \/ unsafe THEN UL ELSE Local(key[1]),
      prefix |-> IF ~named \/ unsafe THEN <<>> ELSE Prefix(key[1]),
      attrs |-> (IF unsafe THEN <<Mark(UL, <<<<"T", key[1]>>>>)>> ELSE <<>>) \o (IF kind = "[" THEN <<Mark(MarkA, <<>>)>> ELSE <<>>),
      ns |-> <<>>, kids |-> <<>>, un |-> FALSE]
Element(f) == <<<<"E", f.name, f.prefix, <<>>>>>> \o f.ns \o f.attrs \o f.kids \o <<<<")">>>>
LooksLiteral(t) == t \in JWords \/ JNumber(t, 1) = Len(t) + 1

\* st: the open elements, pre and post: what surrounds the root, found: the root has been named.
JStart == [st |-> <<>>, key |-> <<>>, root |-> <<>>, pre |-> <<>>, post |-> <<>>, named |-> FALSE, un |-> FALSE]
TopF(b) == b.st[Len(b.st)]
AddKids(b, kids) == IF b.st = <<>> THEN [b EXCEPT !.root = kids] ELSE [b EXCEPT !.st[Len(b.st)].kids = @ \o kids, !.key = <<>>]
Member(b) == b.st # <<>> /\ TopF(b).kind = "{"
UnnamedObject(b) == Member(b) /\ ~TopF(b).member
RootObject(b) == Member(b) /\ Len(b.st) = 1
Scalar(b, t, str) ==
  LET f == Frame("S", b.key, Member(b)) IN
  AddKids(b, Element([f EXCEPT !.attrs = IF str /\ LooksLiteral(t) THEN Append(@, Mark(MarkS, <<>>)) ELSE @, !.kids = <<<<"T", t>>>>]))
\* The same attribute twice is undefined, and a declaration after what uses it.
AddAttr(b, e) == [b EXCEPT !.st[Len(b.st)].attrs = Append(@, e), !.key = <<>>,
                           !.un = @ \/ \E k \in 1..Len(TopF(b).attrs) : TopF(b).attrs[k][2] = e[2] /\ TopF(b).attrs[k][3] = e[3]]
AddNs(b, p, h) == [b EXCEPT !.st[Len(b.st)].ns = Append(@, <<"N", p, <<h>>>>), !.key = <<>>,
                            !.un = @ \/ TopF(b).kids # <<>> \/ (\E k \in 1..Len(TopF(b).ns) : TopF(b).ns[k][2] = p)
                                   \/ \E k \in 1..Len(TopF(b).attrs) : p # <<>> /\ TopF(b).attrs[k][3] = p]
StringMember(b, k, t) ==
  CASE k = Bar -> AddKids(b, <<<<"T", t>>>>)
    [] k = SlSl -> AddKids(b, <<<<"C", t>>>>)
    [] k = UlSlSl /\ RootObject(b) ->
         [IF b.named THEN [b EXCEPT !.post = <<<<"C", t>>>> \o @] ELSE [b EXCEPT !.pre = Append(@, <<"C", t>>)] EXCEPT !.key = <<>>]
    [] k = UL /\ UnnamedObject(b) /\ ElementName(t) /\ t # UL ->
         [b EXCEPT !.st[Len(b.st)].name = Local(t), !.st[Len(b.st)].prefix = Prefix(t), !.named = TRUE, !.key = <<>>,
                   \* naming it twice is undefined
                   !.un = @ \/ TopF(b).name # UL]
    [] k = DocTypeWord /\ RootObject(b) /\ ~\E j \in 1..Len(b.pre) : b.pre[j][1] = "D" ->
         [b EXCEPT !.pre = Append(@, <<"D", DoctypeOpen \o t \o <<62>>>>), !.un = @ \/ ~DoctypeOk(t, TRUE), !.key = <<>>]
    [] AttrKey(k) ->
         LET a == Tail(k) IN
         IF Local(a) = Xmlns /\ Prefix(a) = <<>> THEN AddNs(b, <<>>, t)
         ELSE IF Prefix(a) = <<Xmlns>> THEN AddNs(b, <<Local(a)>>, t)
         ELSE AddAttr(b, <<"A", Local(a), Prefix(a), IF t = <<>> THEN <<>> ELSE <<<<"T", t>>>>, <<>>>>)
    [] OTHER -> Scalar(b, t, TRUE)

JStep(b, e) ==
  CASE e[1] = "K" -> [b EXCEPT !.key = <<KeyTrim(e[2])>>]
    [] e[1] \in {"{", "["} -> [b EXCEPT !.st = Append(@, Frame(e[1], b.key, Member(b))), !.key = <<>>]
    [] e[1] \in {"}", "]"} ->
         LET f == TopF(b)  x == [b EXCEPT !.st = SubSeq(@, 1, Len(@)-1)] IN AddKids(x, Element(f))
    [] e[1] = "S" -> IF b.key # <<>> THEN StringMember(b, b.key[1], e[2]) ELSE Scalar(b, e[2], TRUE)
    [] e[1] = "L" -> IF b.key # <<>> /\ AttrKey(b.key[1]) /\ e[2] = <<110,117,108,108>>
                     THEN LET a == Tail(b.key[1]) IN
                          [AddAttr(b, <<"A", Local(a), Prefix(a), <<>>, <<>>>>) EXCEPT !.un = @ \/ Local(a) = Xmlns \/ Prefix(a) = <<Xmlns>>]
                     ELSE Scalar(b, e[2], FALSE)

RECURSIVE JFold(_, _, _)
JFold(b, ev, k) == IF k > Len(ev) THEN b ELSE JFold(JStep(b, ev[k]), ev, k+1)
\* The document of a value: [ev, un].
DocOf(ev) == LET b == JFold(JStart, ev, 1) IN [ev |-> Resolved(b.pre \o b.root \o b.post, 1, <<>>), un |-> b.un]

-----------------------------------------------------------------------------
(* When two values are the same: indexes of keys aside.                      *)
Trimmed(ev) == [k \in 1..Len(ev) |-> IF ev[k][1] = "K" THEN <<"K", KeyTrim(ev[k][2])>> ELSE ev[k]]

\* The members of an object whose key has a meaning of its own.
Reserved(k, v) == /\ v[1] = "S" \/ v = <<"L", <<110,117,108,108>>>>
                  /\ k \in {Bar, SlSl, UlSlSl, UL, DocTypeWord} \/ AttrKey(k)
Plain(ev) == \A j \in 1..Len(ev)-1 : ev[j][1] = "K" => ~Reserved(KeyTrim(ev[j][2]), ev[j+1])

\* The keys of an object more than once: which one counts is undefined. st: the keys of each open object so far.
RECURSIVE KeySets(_, _, _, _)
KeySets(ev, k, st, all) ==
  IF k > Len(ev) THEN TRUE
  ELSE CASE ev[k][1] \in {"{", "["} -> KeySets(ev, k+1, Append(st, {}), all)
         [] ev[k][1] \in {"}", "]"} -> KeySets(ev, k+1, SubSeq(st, 1, Len(st)-1), all)
         [] ev[k][1] = "K" /\ (all \/ SafeKey(KeyTrim(ev[k][2])) \/ KeyTrim(ev[k][2]) \in {Bar, SlSl, UlSlSl}) ->
              ev[k][2] \notin st[Len(st)] /\ KeySets(ev, k+1, [st EXCEPT ![Len(st)] = @ \cup {ev[k][2]}], all)
         [] OTHER -> KeySets(ev, k+1, st, all)
UniqueKeys(ev) == KeySets(ev, 1, <<>>, TRUE)
\* Only the keys that are names or hold texts and comments.
UniqueNames(ev) == KeySets(ev, 1, <<>>, FALSE)
=============================================================================
