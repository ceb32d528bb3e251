-------------------------------- MODULE Xslt --------------------------------
(***************************************************************************)
(* What a stylesheet makes of a document (the part of XSLT 1.0 that is     *)
(* modelled).  A stylesheet is itself a document (an event sequence, see   *)
(* XmqTree), written in any of the formats.                                *)
(*                                                                         *)
(* The machine: what is yet to be processed is a set of (instruction,      *)
(* node) pairs; Exec gives the events that the instructions below a node   *)
(* of the stylesheet write for a node of the document.                     *)
(*                                                                         *)
(* S is [st, sp, docs, pars, table, vars, tmpl]: the flattened stylesheet, *)
(* its parents, the documents (the first is the input), their parents, the *)
(* paths [t, doc, alts] that are written in attributes, the values of the  *)
(* parameters [name, kind, text], and the templates.                       *)
(* What is not modelled is a "?" event: nothing is said of such a result.  *)
(***************************************************************************)
EXTENDS XmqPath

XslUri == <<104,116,116,112,58,47,47,119,119,119,46,119,51,46,111,114,103,47,49,57,57,57,47,88,83,76,47,84,114,97,110,115,102,111,114,109>>
Open == <<<<"?">>>>
W(s) == CASE s = "template" -> <<116,101,109,112,108,97,116,101>> [] s = "match" -> <<109,97,116,99,104>> [] s = "select" -> <<115,101,108,101,99,116>>
          [] s = "value-of" -> <<118,97,108,117,101,45,111,102>> [] s = "copy-of" -> <<99,111,112,121,45,111,102>> [] s = "copy" -> <<99,111,112,121>>
          [] s = "apply-templates" -> <<97,112,112,108,121,45,116,101,109,112,108,97,116,101,115>> [] s = "for-each" -> <<102,111,114,45,101,97,99,104>>
          [] s = "if" -> <<105,102>> [] s = "test" -> <<116,101,115,116>> [] s = "text" -> <<116,101,120,116>> [] s = "comment" -> <<99,111,109,109,101,110,116>>
          [] s = "element" -> <<101,108,101,109,101,110,116>> [] s = "attribute" -> <<97,116,116,114,105,98,117,116,101>> [] s = "name" -> <<110,97,109,101>>
          [] s = "call-template" -> <<99,97,108,108,45,116,101,109,112,108,97,116,101>> [] s = "choose" -> <<99,104,111,111,115,101>>
          [] s = "when" -> <<119,104,101,110>> [] s = "otherwise" -> <<111,116,104,101,114,119,105,115,101>>
          [] s = "param" -> <<112,97,114,97,109>> [] s = "include" -> <<105,110,99,108,117,100,101>> [] s = "import" -> <<105,109,112,111,114,116>> [] s = "href" -> <<104,114,101,102>>

IsXsl(e, s) == e[1] = "E" /\ e[4] = <<XslUri>> /\ e[2] = W(s)
AnyXsl(e) == e[1] = "E" /\ e[4] = <<XslUri>>
WsOnly(t) == \A j \in 1..Len(t) : t[j] \in {9, 10, 13, 32}
\* The texts of a stylesheet, with the character entities that are written in them; comments and pis say nothing.
Plain(ev) == MergeTexts(SelectSeq(ev, LAMBDA e : e[1] \notin {"C", "P"}), 1, <<>>)
RefText(e) == LET t == <<38>> \o e[2] \o <<59>> IN IF IsCharRef(t) THEN <<<<"T", Utf8(CharRefValue(t))>>>> ELSE <<e>>
RECURSIVE Decoded(_)
Decoded(ev) == IF ev = <<>> THEN <<>> ELSE
  (IF ev[1][1] = "R" THEN RefText(ev[1]) ELSE IF ev[1][1] = "A" THEN <<<<"A", ev[1][2], ev[1][3], Decoded(ev[1][4]), ev[1][5]>>>> ELSE <<ev[1]>>) \o Decoded(Tail(ev))
Attr(st, sp, i, s) == LET c == {j \in AttrsOf(st, sp, i) : st[j][2] = W(s)} IN IF c = {} THEN <<>> ELSE KidsText(st[CHOOSE j \in c : TRUE][4])
HasAttr(st, sp, i, s) == \E j \in AttrsOf(st, sp, i) : st[j][2] = W(s)

(* Includes are replaced by what they include; what is imported comes first, and counts less: a mark follows it. *)
Inside(st, sp, top) == SubSeq(st, top+1, EndOf(st, sp, top)-1)
RECURSIVE Flatten(_, _)
Flatten(mods, ev) ==
  LET st == Plain(Decoded(ev))  sp == Parents(st)
      top == CHOOSE j \in 1..Len(st) : st[j][1] = "E" /\ sp[j] = 0
      kids == {j \in ChildrenOf(st, sp, top) : st[j][1] = "E"}
      RECURSIVE Flow(_)
      Flow(z) == IF z = {} THEN <<>> ELSE
        LET j == CHOOSE j \in z : \A q \in z : j <= q
            other(s) == LET h == Attr(st, sp, j, s)  c == {q \in 1..Len(mods) : mods[q].href = h} IN IF c = {} THEN Open ELSE Flatten(mods, mods[CHOOSE q \in c : TRUE].ev)
        IN (IF IsXsl(st[j], "include") THEN other("href") ELSE IF IsXsl(st[j], "import") THEN other("href") \o <<<<"I">>>> ELSE SubSeq(st, j, EndOf(st, sp, j))) \o Flow(z \ {j})
  IN Flow(kids)

Lookup(S, t) == LET c == {q \in 1..Len(S.table) : S.table[q].t = t} IN IF c = {} THEN [t |-> t, doc |-> 0, alts |-> <<>>] ELSE S.table[CHOOSE q \in c : TRUE]
\* The nodes of a path: [d |-> document, n |-> nodes]; x is the node it starts at [d, i].
Nodes(S, en, x) == LET d == IF en.doc > 1 THEN en.doc ELSE x.d IN
  [d |-> d, n |-> UNION {Steps(S.docs[d], S.pars[d], en.alts[q].p, 1, {IF en.alts[q].rel THEN x.i ELSE 0}) : q \in 1..Len(en.alts)}]
RECURSIVE Ordered(_)
Ordered(z) == IF z = {} THEN <<>> ELSE LET m == CHOOSE i \in z : \A j \in z : i <= j IN <<m>> \o Ordered(z \ {m})

\* The value of an expression: nodes, or a text.
VarOf(S, t) == {q \in 1..Len(S.vars) : <<36>> \o S.vars[q].name = t}
Last(z) == CHOOSE q \in z : \A r \in z : q >= r
RECURSIVE Eval(_, _, _)
Eval(S, t, x) ==
  IF t # <<>> /\ t[1] = 36
  THEN LET z == VarOf(S, t)  v == S.vars[Last(z)] IN
       IF z = {} THEN [k |-> "?"] ELSE IF v.kind = "s" THEN [k |-> "s", s |-> v.text] ELSE IF v.text # <<>> /\ v.text[1] = 36 THEN [k |-> "?"] ELSE Eval(S, v.text, [d |-> 1, i |-> 0])
  ELSE LET en == Lookup(S, t) IN
       IF en.doc = 0 \/ (\E q \in 1..Len(en.alts) : ~Decided(S.docs[IF en.doc > 1 THEN en.doc ELSE x.d], en.alts[q].p)) THEN [k |-> "?"] ELSE LET z == Nodes(S, en, x) IN [k |-> "n", d |-> z.d, n |-> z.n]
\* As a text: the value of the first node.
AsText(S, v) == IF v.k = "s" THEN v.s ELSE IF v.n = {} THEN <<>> ELSE ValueOf(S.docs[v.d], S.pars[v.d], Ordered(v.n)[1])
AsTruth(v) == IF v.k = "s" THEN v.s # <<>> ELSE v.n # {}
TextEvent(t) == IF t = <<>> THEN <<>> ELSE <<<<"T", t>>>>
CopyOfNode(ev, par, i) == IF i = 0 THEN ev ELSE SubSeq(ev, i, EndOf(ev, par, i))

\* Values with paths in braces: a sequence of <<text>> and <<"v", path>>.
RECURSIVE Avt(_, _, _)
Avt(t, q, cur) ==
  IF q > Len(t) THEN <<[v |-> FALSE, t |-> cur]>>
  ELSE IF t[q] \in {123, 125} /\ q < Len(t) /\ t[q+1] = t[q] THEN Avt(t, q+2, Append(cur, t[q]))
  ELSE IF t[q] = 123 THEN LET z == {e \in q+1..Len(t) : t[e] = 125} IN
         IF z = {} THEN <<[v |-> TRUE, t |-> <<>>]>>
         ELSE LET e == CHOOSE e \in z : \A y \in z : e <= y IN <<[v |-> FALSE, t |-> cur], [v |-> TRUE, t |-> SubSeq(t, q+1, e-1)]>> \o Avt(t, e+1, <<>>)
  ELSE Avt(t, q+1, Append(cur, t[q]))
AvtText(S, t, x) == LET L == Avt(t, 1, <<>>)
                        vs == [q \in 1..Len(L) |-> IF L[q].v THEN Eval(S, L[q].t, x) ELSE [k |-> "s", s |-> L[q].t]] IN
                    IF \E q \in 1..Len(L) : vs[q].k = "?" THEN [ok |-> FALSE] ELSE [ok |-> TRUE, t |-> ConcatOf([q \in 1..Len(L) |-> AsText(S, vs[q])])]
AttrEvent(n, t) == <<"A", n, <<>>, TextEvent(t), <<>>>>

(* Templates: the pattern with the highest priority, the one that is last in the stylesheet. *)
Strength(alt) == LET p == alt.p IN IF Len(p) = 1 /\ p[1].pred = "" /\ alt.rel THEN (IF p[1].test = "name" THEN 0 ELSE 0-1) ELSE 1
Matches(S, alt, x) == LET ev == S.docs[x.d]  par == S.pars[x.d] IN
  IF alt.p = <<>> THEN x.i = 0
  ELSE \E up \in 0..Len(ev) : (up = x.i \/ IsAbove(par, up, x.i)) /\ (alt.rel \/ up = 0) /\ x.i \in Steps(ev, par, alt.p, 1, {up})
TemplatesOf(st, sp) == {i \in 1..Len(st) : sp[i] = 0 /\ IsXsl(st[i], "template") /\ HasAttr(st, sp, i, "match")}
Weight(st, i) == Cardinality({j \in 1..i : st[j][1] = "I"})
Candidates(S, x) == UNION {LET en == Lookup(S, Attr(S.st, S.sp, i, "match")) IN {<<Weight(S.st, i), Strength(en.alts[q]), i>> : q \in {q \in 1..Len(en.alts) : Matches(S, en.alts[q], x)}} : i \in S.tmpl}
Better(u, v) == u[1] > v[1] \/ (u[1] = v[1] /\ (u[2] > v[2] \/ (u[2] = v[2] /\ u[3] >= v[3])))

RECURSIVE Exec(_, _, _, _), Instr(_, _, _, _), ForNodes(_, _, _, _), Each(_, _, _, _, _)
\* Apply the templates to a node.
ForNodes(S, x, c, fuel) ==
  IF fuel = 0 THEN Open
  ELSE IF c # {} THEN LET b == CHOOSE u \in c : \A v \in c : Better(u, v) IN Exec(S, b[3], x, fuel-1)
  ELSE LET ev == S.docs[x.d]  par == S.pars[x.d] IN
       IF x.i # 0 /\ ev[x.i][1] \in {"T", "A"} THEN TextEvent(ValueOf(ev, par, x.i))
       ELSE IF x.i # 0 /\ ev[x.i][1] # "E" THEN <<>>
       ELSE Each(S, 0, x.d, Ordered(ChildrenOf(ev, par, x.i)), fuel-1)
\* For each of the nodes: the templates (i = 0), or what is below the instruction i.
Each(S, i, d, L, fuel) ==
  ConcatOf([q \in 1..Len(L) |-> LET x == [d |-> d, i |-> L[q]] IN IF i = 0 THEN ForNodes(S, x, Candidates(S, x), fuel) ELSE Exec(S, i, x, fuel)])
Exec(S, i, x, fuel) == LET L == Ordered({j \in 1..Len(S.st) : S.sp[j] = i /\ Inner(S.st[j])} \cup {j \in 1..Len(S.st) : S.sp[j] = i /\ S.st[j][1] = "R"})
                       IN ConcatOf([q \in 1..Len(L) |-> Instr(S, L[q], x, fuel)])
OnlyText(ev) == \A q \in 1..Len(ev) : ev[q][1] = "T"
Instr(S, i, x, fuel) ==
  LET e == S.st[i]
      at(s) == Attr(S.st, S.sp, i, s)
      sel == Eval(S, at("select"), x)
      here == S.docs[x.d]
      node == IF x.i = 0 THEN <<"0">> ELSE here[x.i]
      body == Exec(S, i, x, fuel)
  IN
  IF e[1] = "T" THEN (IF WsOnly(e[2]) /\ ~IsXsl(S.st[S.sp[i]], "text") THEN <<>> ELSE <<e>>)
  ELSE IF e[1] = "R" THEN Open
  ELSE IF ~AnyXsl(e) THEN
    LET L == Ordered(AttrsOf(S.st, S.sp, i))
        v == [q \in 1..Len(L) |-> AvtText(S, KidsText(S.st[L[q]][4]), x)]
        ref == \E q \in 1..Len(L) : \E z \in 1..Len(S.st[L[q]][4]) : S.st[L[q]][4][z][1] = "R"
    IN IF ref \/ \E q \in 1..Len(L) : ~v[q].ok THEN Open ELSE <<e>> \o [q \in 1..Len(L) |-> AttrEvent(S.st[L[q]][2], v[q].t)] \o body \o <<<<")">>>>
  ELSE CASE IsXsl(e, "text") -> body
    [] IsXsl(e, "value-of") -> IF sel.k = "?" THEN Open ELSE TextEvent(AsText(S, sel))
    [] IsXsl(e, "copy-of") -> IF sel.k = "?" THEN Open ELSE IF sel.k = "s" THEN TextEvent(sel.s)
                              ELSE LET L == Ordered(sel.n) IN ConcatOf([q \in 1..Len(L) |-> CopyOfNode(S.docs[sel.d], S.pars[sel.d], L[q])])
    [] IsXsl(e, "apply-templates") -> IF HasAttr(S.st, S.sp, i, "select")
                              THEN IF sel.k # "n" THEN Open ELSE Each(S, 0, sel.d, Ordered(sel.n), fuel)
                              ELSE IF node[1] = "A" THEN Open   \* an attribute has no children: libxslt has its text for one
                              ELSE Each(S, 0, x.d, Ordered(ChildrenOf(here, S.pars[x.d], x.i)), fuel)
    [] IsXsl(e, "for-each") -> IF sel.k # "n" THEN Open ELSE Each(S, i, sel.d, Ordered(sel.n), fuel)
    [] IsXsl(e, "if") -> LET v == Eval(S, at("test"), x) IN IF v.k = "?" THEN Open ELSE IF AsTruth(v) THEN body ELSE <<>>
    [] IsXsl(e, "choose") -> LET L == Ordered({j \in ChildrenOf(S.st, S.sp, i) : AnyXsl(S.st[j])})
                                 v == [q \in 1..Len(L) |-> IF IsXsl(S.st[L[q]], "otherwise") THEN [k |-> "s", s |-> <<1>>] ELSE Eval(S, Attr(S.st, S.sp, L[q], "test"), x)]
                                 z == {q \in 1..Len(L) : v[q].k # "?" /\ AsTruth(v[q])} IN
                             IF \E q \in 1..Len(L) : v[q].k = "?" THEN Open ELSE IF z = {} THEN <<>> ELSE Exec(S, L[CHOOSE q \in z : \A y \in z : q <= y], x, fuel)
    [] IsXsl(e, "copy") -> CASE node[1] = "0" -> body
                             [] node[1] = "E" -> <<node>> \o body \o <<<<")">>>>
                             [] OTHER -> <<node>>
    [] IsXsl(e, "comment") -> IF OnlyText(body) THEN <<<<"C", KidsText(body)>>>> ELSE Open
    [] IsXsl(e, "element") -> LET n == AvtText(S, at("name"), x) IN IF ~n.ok \/ n.t = <<>> THEN Open ELSE <<<<"E", n.t, <<>>, <<>>>>>> \o body \o <<<<")">>>>
    [] IsXsl(e, "attribute") -> LET n == AvtText(S, at("name"), x) IN IF ~n.ok \/ n.t = <<>> \/ ~OnlyText(body) THEN Open ELSE <<AttrEvent(n.t, KidsText(body))>>
    [] IsXsl(e, "call-template") -> LET c == {j \in 1..Len(S.st) : S.sp[j] = 0 /\ IsXsl(S.st[j], "template") /\ HasAttr(S.st, S.sp, j, "name") /\ Attr(S.st, S.sp, j, "name") = at("name")} IN
                             IF Cardinality(c) # 1 \/ fuel = 0 THEN Open ELSE Exec(S, CHOOSE j \in c : TRUE, x, fuel-1)
    [] OTHER -> Open

\* The values of the parameters: what the command says, and then what the stylesheet says.
Defaults(st, sp, given) == LET c == {i \in 1..Len(st) : sp[i] = 0 /\ IsXsl(st[i], "param") /\ ~(\E q \in 1..Len(given) : given[q].name = Attr(st, sp, i, "name"))}
                               L == Ordered(c) IN
                           [q \in 1..Len(L) |-> IF HasAttr(st, sp, L[q], "select") THEN [name |-> Attr(st, sp, L[q], "name"), kind |-> "n", text |-> Attr(st, sp, L[q], "select")]
                                                ELSE [name |-> Attr(st, sp, L[q], "name"), kind |-> "s", text |-> ValueOf(st, sp, L[q])]]
OnlyDeclared(st, sp, given) == LET names == {Attr(st, sp, i, "name") : i \in {i \in 1..Len(st) : sp[i] = 0 /\ IsXsl(st[i], "param")}} IN SelectSeq(given, LAMBDA v : v.name \in names)
Machine(style, mods, docs, table, given) ==
  LET st == Flatten(mods, style)  sp == Parents(st) IN
  [st |-> st, sp |-> sp, docs |-> docs, pars |-> [q \in 1..Len(docs) |-> Parents(docs[q])], table |-> table,
   vars |-> OnlyDeclared(st, sp, given) \o Defaults(st, sp, given), tmpl |-> TemplatesOf(st, sp)]
Fuel == 12
Transformed(style, mods, docs, table, given) ==
  LET S == Machine(style, mods, docs, table, given)  x == [d |-> 1, i |-> 0] IN ForNodes(S, x, Candidates(S, x), Fuel)

\* Results that are no document: attributes that are late, twice or outside of an element.
Whole(ev) ==
  /\ \A q \in 1..Len(ev) : ev[q][1] # "?"
  /\ \A q \in 1..Len(ev) : ev[q][1] = "A" => q > 1 /\ ev[q-1][1] \in {"E", "A"}
  /\ \A q \in 1..Len(ev) : ev[q][1] = "E" => LET run == {j \in q+1..Len(ev) : \A z \in q+1..j : ev[z][1] = "A"} IN Cardinality({ev[j][2] : j \in run}) = Cardinality(run)
Merged(ev) == MergeTexts(ev, 1, <<>>)
=============================================================================
