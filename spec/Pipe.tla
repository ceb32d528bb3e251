-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* The commands that change the document between loading and printing.     *)
(* A command is [op, paths, name, text, file]; Apply gives the document    *)
(* after it: [ok, ev, def], def when the outcome is defined.               *)
(***************************************************************************)
EXTENDS XmqPath

Pieces(ev) == [j \in 1..Len(ev) |-> <<ev[j]>>]

\* -- select: the selected nodes, in document order, become the document. A node below another selected
\* node is taken out of that. An attribute stands for its element. A node takes along the namespaces it uses.
Needs(ev, par, m, out(_)) ==
  LET z == EndOf(ev, par, m)
      pre(j) == ev[j][3]
      href(j) == IF ev[j][1] = "E" THEN ev[j][4] ELSE ev[j][5]
      owner(j) == IF ev[j][1] = "E" THEN j ELSE par[j]
      within(j, p) == \E q \in m..z : ev[q][1] = "N" /\ ev[q][2] = p /\ (par[q] = owner(j) \/ IsAbove(par, par[q], owner(j)))
  IN {<<"N", pre(j), href(j)>> : j \in {q \in m..z : /\ ev[q][1] \in {"E", "A"} /\ href(q) # <<>> /\ pre(q) # <<XmlPrefix>>
                                                     /\ ~within(q, pre(q)) /\ ~out(q)}}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Taken(ev, par, M, m) ==
  LET z == EndOf(ev, par, m)
      out(j) == \E q \in M : q # m /\ q > m /\ q <= z /\ j >= q /\ j <= EndOf(ev, par, q)
  IN ConcatOf([j \in 1..z-m+1 |-> IF j > 1 /\ out(m+j-1) THEN <<>>
                                   ELSE IF j = 1 /\ ev[m][1] = "E" THEN <<ev[m]>> \o SeqOf(Needs(ev, par, m, out)) ELSE <<ev[m+j-1]>>])
Select(ev, S) ==
  IF 0 \in S THEN ev
  ELSE LET par == Parents(ev)
           M == {IF ev[i][1] = "A" THEN par[i] ELSE i : i \in S}
       IN ConcatOf([i \in 1..Len(ev) |-> IF i \in M THEN Taken(ev, par, M, i) ELSE <<>>])

\* -- delete: the nodes and all that is below them. Deleting the document leaves nothing.
Delete(ev, S) ==
  IF 0 \in S THEN <<>>
  ELSE LET par == Parents(ev) IN
       ConcatOf([i \in 1..Len(ev) |-> IF \E q \in S : i >= q /\ i <= EndOf(ev, par, q) THEN <<>> ELSE <<ev[i]>>])

\* -- entities: in the content and in attributes, by what f gives for them there.
ForEntities(ev, name, content, inattr) ==
  LET is(e) == e[1] = "R" /\ e[2] = name
      attr(kids) == ConcatOf([j \in 1..Len(kids) |-> IF is(kids[j]) THEN inattr ELSE <<kids[j]>>])
  IN ConcatOf([i \in 1..Len(ev) |-> IF is(ev[i]) THEN content
                                     ELSE IF ev[i][1] = "A" THEN <<[ev[i] EXCEPT ![4] = attr(@)]>> ELSE <<ev[i]>>])

CharText(e) == LET t == <<38>> \o e[2] \o <<59>> IN Utf8(CharRefValue(t))
CharEntities(ev) == {e[2] : e \in {x \in {ev[i] : i \in 1..Len(ev)} \cup UNION {{ev[i][4][j] : j \in 1..Len(ev[i][4])} : i \in {q \in 1..Len(ev) : ev[q][1] = "A"}}
                                      : x[1] = "R" /\ x[2] # <<>> /\ x[2][1] = 35}}
RECURSIVE SubstAll(_, _)
SubstAll(ev, names) ==
  IF names = {} THEN ev
  ELSE LET n == CHOOSE n \in names : TRUE  t == <<<<"T", CharText(<<"R", n>>)>>>> IN SubstAll(ForEntities(ev, n, t, t), names \ {n})

\* The text that nodes have where only text can be.
RootsText(ev) == LET par == Parents(ev) IN
                 ConcatOf([i \in 1..Len(ev) |-> IF par[i] = 0 /\ ev[i][1] \in {"E", "T"} THEN ValueOf(ev, par, i) ELSE <<>>])
NoDoctype(ev) == SelectSeq(ev, LAMBDA e : e[1] # "D")

\* A parsed document has doctypes in their xml form, and not the internal one.
DoctypeInner(t) == SubSeq(t, Len(DoctypeOpen)+1, Len(t)-1)
FromParse(ev) == [i \in 1..Len(ev) |-> IF ev[i][1] = "D" THEN <<"D", DoctypeInner(ev[i][2])>> ELSE ev[i]]

Add(ev, new) ==
  LET d == SelectSeq(new, LAMBDA e : e[1] = "D")
      has == \E i \in 1..Len(ev) : ev[i][1] = "D"
  IN (IF ~has THEN d ELSE <<>>) \o ev \o NoDoctype(new)

\* The doctype remains before the root.
AddRoot(ev, name) ==
  SelectSeq(ev, LAMBDA e : e[1] = "D") \o <<<<"E", name, <<>>, <<>>>>>> \o NoDoctype(ev) \o <<<<")">>>>

\* -- statistics: a document with the numbers of the document. The size of the source is left open.
Sum(S, f(_)) == LET RECURSIVE add(_) add(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN f(x) + add(R \ {x}) IN add(S)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
Word(t) == LET z == {i \in 1..Len(t) : t[i] = SP} IN IF z = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in z : \A j \in z : i <= j) - 1)
StatNames == [
  num_elements |-> <<110,117,109,95,101,108,101,109,101,110,116,115>>,
  size_element_names |-> <<115,105,122,101,95,101,108,101,109,101,110,116,95,110,97,109,101,115>>,
  num_text_nodes |-> <<110,117,109,95,116,101,120,116,95,110,111,100,101,115>>,
  size_text_nodes |-> <<115,105,122,101,95,116,101,120,116,95,110,111,100,101,115>>,
  num_attributes |-> <<110,117,109,95,97,116,116,114,105,98,117,116,101,115>>,
  size_attribute_names |-> <<115,105,122,101,95,97,116,116,114,105,98,117,116,101,95,110,97,109,101,115>>,
  size_attribute_content |-> <<115,105,122,101,95,97,116,116,114,105,98,117,116,101,95,99,111,110,116,101,110,116>>,
  num_comments |-> <<110,117,109,95,99,111,109,109,101,110,116,115>>,
  size_comments |-> <<115,105,122,101,95,99,111,109,109,101,110,116,115>>,
  size_doctype |-> <<115,105,122,101,95,100,111,99,116,121,112,101>>,
  sum_meta |-> <<115,117,109,95,109,101,116,97>>,
  sum_text |-> <<115,117,109,95,116,101,120,116>>,
  size_source |-> <<115,105,122,101,95,115,111,117,114,99,101>>,
  statistics |-> <<115,116,97,116,105,115,116,105,99,115>>]
Statistics(ev) ==
  LET of(kind) == {i \in 1..Len(ev) : ev[i][1] = kind}
      names(kind) == Sum(of(kind), LAMBDA i : Len(ev[i][2]))
      values == Sum(of("A"), LAMBDA i : Len(KidsText(ev[i][4])))
      types == Sum(of("D"), LAMBDA i : Len(Word(ev[i][2])))
      one(n, v) == <<<<"E", n, <<>>, <<>>>>, <<"T", v>>, <<")">>>>
      num(n, v) == IF v = 0 THEN <<>> ELSE one(n, Decimal(v))
  IN <<<<"E", StatNames.statistics, <<>>, <<>>>>>>
     \o one(StatNames.size_source, <<0>>)
     \o num(StatNames.num_elements, Cardinality(of("E"))) \o num(StatNames.size_element_names, names("E"))
     \o num(StatNames.num_text_nodes, Cardinality(of("T"))) \o num(StatNames.size_text_nodes, names("T"))
     \o num(StatNames.num_attributes, Cardinality(of("A"))) \o num(StatNames.size_attribute_names, names("A"))
     \o num(StatNames.size_attribute_content, values)
     \o num(StatNames.num_comments, Cardinality(of("C"))) \o num(StatNames.size_comments, names("C"))
     \o num(StatNames.size_doctype, types)
     \o one(StatNames.sum_meta, Decimal(names("E") + names("A") + values + types)) \o one(StatNames.sum_text, Decimal(names("T")))
     \o <<<<")">>>>

Fine(ev) == [ok |-> TRUE, ev |-> ev, def |-> TRUE]
Apply(ev, c) ==
  CASE c.op \in {"select", "delete"} ->
         LET S == NodesOf(ev, c.paths) IN
         [ok |-> TRUE, ev |-> IF c.op = "select" THEN Select(ev, S) ELSE Delete(ev, S), def |-> \A j \in 1..Len(c.paths) : Decided(ev, c.paths[j])]
    [] c.op = "delete-entity" -> Fine(ForEntities(ev, c.name, <<>>, <<>>))
    [] c.op = "replace-entity" -> Fine(ForEntities(ev, c.name, <<<<"T", c.text>>>>, <<<<"T", c.text>>>>))
    [] c.op = "replace-file" -> Fine(ForEntities(ev, c.name, NoDoctype(c.file), <<<<"T", RootsText(c.file)>>>>))
    [] c.op = "substitute-char-entities" -> Fine(SubstAll(ev, CharEntities(ev)))
    [] c.op = "substitute-entity" -> Fine(SubstAll(ev, CharEntities(ev) \cap {c.name}))
    [] c.op = "add" -> LET p == ParseWith(c.text, <<>>, TRUE) IN
                       [ok |-> p.ok, ev |-> IF p.ok THEN Add(ev, FromParse(p.ev)) ELSE <<>>, def |-> ~p.unspec]
    [] c.op = "add-root" -> Fine(AddRoot(ev, c.name))
    [] c.op = "statistics" -> [ok |-> TRUE, ev |-> Statistics(ev), def |-> <<"T", <<0>>>> \notin {ev[i] : i \in 1..Len(ev)} /\ ~AdjacentTexts(ev) /\ ~EmptyTexts(ev)]
    [] c.op = "fail" -> [ok |-> FALSE, ev |-> <<>>, def |-> TRUE]

\* The names of a document resolve to what they did where they came from.
Consistent(ev) == Resolved(ev, 1, <<>>) = ev /\ PrefixesDeclared(ev)
=============================================================================
