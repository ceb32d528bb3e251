------------------------------ MODULE JsonTrace ------------------------------
(***************************************************************************)
(* Recorded json output.  Record: kind, t, doc, outs.                       *)
(*  "value": the json text t was read, outs is what was written as json     *)
(*           from it directly and after a detour through pretty and compact *)
(*           xmq. All must hold the same value.                             *)
(*  "doc":   the document doc was written as json, outs[1]. It must be a     *)
(*           json text, from which the document can be read back if json    *)
(*           has a place for everything in it.                              *)
(***************************************************************************)
EXTENDS JsonText, IOUtils, Json
VARIABLES k, todo
Trace == ndJsonDeserialize(IOEnv.TRACE)

-----------------------------------------------------------------------------
(* Documents as json. *)
\* The kids of the element that starts at k: positions of the events directly inside of it.
RECURSIVE EndOf(_, _, _)
EndOf(ev, j, depth) ==   \* the position of the ) that closes the element whose E is just before j
  IF ev[j][1] = ")" THEN (IF depth = 0 THEN j ELSE EndOf(ev, j+1, depth-1))
  ELSE EndOf(ev, j+1, IF ev[j][1] = "E" THEN depth+1 ELSE depth)
RECURSIVE KidsFrom(_, _, _)
KidsFrom(ev, j, e) == IF j >= e THEN <<>>
                      ELSE IF ev[j][1] \in {"N", "A"} THEN KidsFrom(ev, j+1, e)
                      ELSE IF ev[j][1] = "E" THEN <<j>> \o KidsFrom(ev, EndOf(ev, j+1, 0) + 1, e)
                      ELSE <<j>> \o KidsFrom(ev, j+1, e)
Kids(ev, j) == KidsFrom(ev, j+1, EndOf(ev, j+1, 0))
RECURSIVE HeadOf(_, _)
HeadOf(ev, j) == IF ev[j][1] \in {"N", "A"} THEN <<ev[j]>> \o HeadOf(ev, j+1) ELSE <<>>
Head1(ev, j) == HeadOf(ev, j+1)
Heads(ev, j) == {Head1(ev, j)[x] : x \in 1..Len(Head1(ev, j))}
HasMark(ev, j, m) == \E e \in Heads(ev, j) : e[1] = "A" /\ e[2] = m /\ e[3] = <<>>
OtherHead(ev, j) == \E e \in Heads(ev, j) : ~(e[1] = "A" /\ e[3] = <<>> /\ e[2] \in {UL, MarkA, MarkS})
TextLike(e) == e[1] \in {"T", "R"}
OnlyText(ev, j) == Kids(ev, j) # <<>> /\ \A x \in 1..Len(Kids(ev, j)) : TextLike(ev[Kids(ev, j)[x]])
\* Written as a string or a literal.
KeyValue(ev, j) == OnlyText(ev, j) /\ ~OtherHead(ev, j)
AsArray(ev, j) == ~KeyValue(ev, j) /\ HasMark(ev, j, MarkA)
AsObject(ev, j) == ~KeyValue(ev, j) /\ ~AsArray(ev, j)

Predefined(t) == CASE t = Apos -> <<QUO>> [] t = <<97,109,112>> -> <<AMP>> [] t = <<108,116>> -> <<60>> [] t = <<103,116>> -> <<62>>
                   [] t = <<113,117,111,116>> -> <<DQ>> [] OTHER -> <<AMP>> \o t \o <<59>>
RECURSIVE FlatText(_, _)
FlatText(kids, x) == IF x > Len(kids) THEN <<>> ELSE (IF kids[x][1] = "T" THEN kids[x][2] ELSE Predefined(kids[x][2])) \o FlatText(kids, x+1)
KidEvents(ev, j) == [x \in 1..Len(Kids(ev, j)) |-> ev[Kids(ev, j)[x]]]
ValueText(ev, j) == FlatText(KidEvents(ev, j), 1)

ParentOf(ev, j) == LET p == {i \in 1..j-1 : ev[i][1] = "E" /\ EndOf(ev, i+1, 0) > j} IN
                   IF p = {} THEN 0 ELSE CHOOSE i \in p : \A x \in p : x <= i
Elements(ev) == {j \in 1..Len(ev) : ev[j][1] = "E"}
Roots(ev) == {j \in 1..Len(ev) : ev[j][1] \in {"E", "T", "R"} /\ ParentOf(ev, j) = 0}
OneRoot(ev) == Cardinality(Roots(ev)) = 1 /\ \A j \in Roots(ev) : ev[j][1] = "E"
InArray(ev, j) == ParentOf(ev, j) > 0 /\ AsArray(ev, ParentOf(ev, j))

QName(e) == IF e[3] = <<>> THEN e[2] ELSE e[3][1] \o <<58>> \o e[2]
NameFits(ev, j) == /\ ElementName(QName(ev[j])) /\ ev[j][2] # UL => ~AttrKey(QName(ev[j]))
                   /\ ParentOf(ev, j) = 0 => AsObject(ev, j) \/ (ev[j][2] = UL /\ ~\E x \in 1..Len(ev) : ev[x][1] \in {"C", "D"} /\ ParentOf(ev, x) = 0)
                   /\ InArray(ev, j) => AsObject(ev, j) \/ ev[j][2] = UL
\* The marks say what the element is.
MarksFit(ev, j) ==
  /\ HasMark(ev, j, MarkA) => AsArray(ev, j) /\ ~OtherHead(ev, j) /\ ~HasMark(ev, j, MarkS) /\ (Kids(ev, j) # <<>> => \E x \in 1..Len(Kids(ev, j)) : ev[Kids(ev, j)[x]][1] = "E")
  /\ HasMark(ev, j, MarkS) => KeyValue(ev, j) /\ LooksLiteral(ValueText(ev, j))
  /\ HasMark(ev, j, UL) => ev[j][2] = UL /\ Head1(ev, j)[1][2] = UL /\ ParentOf(ev, j) > 0 /\ ~InArray(ev, j)
                           /\ \E e \in Heads(ev, j) : e[1] = "A" /\ e[2] = UL /\ FlatText(e[4], 1) # <<>> /\ ~SafeKey(FlatText(e[4], 1)) /\ KeyTrim(FlatText(e[4], 1)) = FlatText(e[4], 1)
                              /\ FlatText(e[4], 1) \notin {Bar, SlSl, UlSlSl, DocTypeWord} /\ ~AttrKey(FlatText(e[4], 1))
                              \* the name of the object that it is in
                              /\ (FlatText(e[4], 1) = UL => ParentOf(ev, ParentOf(ev, j)) > 0 /\ ~InArray(ev, ParentOf(ev, j)))
  /\ \A e \in Heads(ev, j) : e[1] = "A" /\ e[3] = <<>> /\ e[2] \in {MarkA, MarkS} => e[4] = <<>>
\* Is there a place for everything.
JsonAble(ev) == /\ OneRoot(ev) /\ \A j \in Elements(ev) : NameFits(ev, j) /\ MarksFit(ev, j)
                \* a comment after a root that has no name is read as one before it
                /\ \A j \in Roots(ev), x \in 1..Len(ev) : ev[j][2] = UL /\ ev[x][1] = "C" /\ x > j => ParentOf(ev, x) > 0
                /\ \A j \in 1..Len(ev) : ev[j][1] # "P" /\ (ev[j][1] = "D" => DoctypeOk(ev[j][2], TRUE))

AttrView(e) == IF e[1] = "A" THEN <<"A", e[2], e[3], IF FlatText(e[4], 1) = <<>> THEN <<>> ELSE <<<<"T", FlatText(e[4], 1)>>>>, e[5]>> ELSE e
HeadView(ev, j) == LET h == Head1(ev, j) IN [x \in 1..Len(h) |-> AttrView(h[x])]
RECURSIVE NodeView(_, _, _)
NodeView(ev, j, arr) ==
  LET e == ev[j]
      wrap(n) == IF arr THEN <<<<"E", UL, <<>>, <<>>>>>> \o n \o <<<<")">>>> ELSE n
      q == Kids(ev, j)
      RECURSIVE all(_)
      all(x) == IF x > Len(q) THEN <<>> ELSE NodeView(ev, q[x], AsArray(ev, j)) \o all(x+1)
  IN
  CASE e[1] = "E" -> <<e>> \o HeadView(ev, j) \o (IF OnlyText(ev, j) THEN <<<<"T", ValueText(ev, j)>>>> ELSE all(1)) \o <<<<")">>>>
    [] e[1] = "R" -> wrap(<<<<"E", UL, <<>>, <<>>>>, Mark(UL, <<<<"T", <<AMP>>>>>>), <<"T", <<AMP>> \o e[2] \o <<59>>>>, <<")">>>>)
    [] e[1] = "D" -> <<<<"D", DoctypeOpen \o e[2] \o <<62>>>>>>
    [] OTHER -> wrap(<<e>>)
RECURSIVE ViewFrom(_, _)
ViewFrom(ev, j) == IF j > Len(ev) THEN <<>>
                   ELSE NodeView(ev, j, FALSE) \o ViewFrom(ev, IF ev[j][1] = "E" THEN EndOf(ev, j+1, 0) + 1 ELSE j + 1)
View(ev) == Resolved(ViewFrom(ev, 1), 1, <<>>)

SameDoc(a, b) == Content(a) = Content(b) /\ Namespaces(a) = Namespaces(b)
ValueVerdict(t, o) ==
  LET x == JsonParse(t)  y == JsonParse(o) IN
  IF ~y.ok \/ y.un THEN "not-json"
  ELSE IF UniqueKeys(x.ev) /\ ~UniqueNames(y.ev) THEN "same-key"
  ELSE IF Plain(x.ev) /\ Trimmed(y.ev) # Trimmed(x.ev) THEN "different-value"
  ELSE IF JsonAble(DocOf(x.ev).ev) /\ ~SameDoc(DocOf(y.ev).ev, DocOf(x.ev).ev) THEN "different-members"
  ELSE "ok"

DocVerdict(ev, o) ==
  LET y == JsonParse(o) IN
  IF ~OneRoot(ev) THEN "ok"
  ELSE IF ~y.ok \/ y.un THEN "not-json"
  ELSE IF ~JsonAble(ev) THEN "ok"
  ELSE IF ~UniqueNames(y.ev) THEN "same-key"
  ELSE IF ~SameDoc(DocOf(y.ev).ev, View(ev)) THEN "different"
  ELSE "ok"

Verdict(r) ==
  IF r.kind = "doc" THEN DocVerdict(r.doc, r.outs[1])
  ELSE LET bad == {i \in 1..Len(r.outs) : ValueVerdict(r.t, r.outs[i]) # "ok"} IN
       IF bad = {} THEN "ok" ELSE LET i == CHOOSE x \in bad : \A z \in bad : x <= z IN
       (CASE i = 1 -> "json: " [] i = 2 -> "pretty xmq: " [] OTHER -> "compact xmq: ") \o ValueVerdict(r.t, r.outs[i])

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET v == Verdict(Trace[k]) IN
           IF v = "ok" THEN PrintT(ToString(<<"DONE", k, Trace[k].kind = "doc" /\ JsonAble(Trace[k].doc)>>))
           ELSE PrintT(ToString(<<"MISMATCH", k, v>>))
=============================================================================
