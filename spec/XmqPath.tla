------------------------------- MODULE XmqPath -------------------------------
(***************************************************************************)
(* Paths into a document (the part of XPath 1.0 that the commands and the  *)
(* lookup functions are used with).  A document is an event sequence (see  *)
(* XmqTree), a node is the index of its event, 0 is the document itself.   *)
(* Entities and the doctype are no nodes of the data model.                *)
(*                                                                         *)
(* A path is a sequence of steps [axis, test, name, pred, n, s]:           *)
(*   axis  "/" child, "//" any depth, "@" attribute, ".." parent, "."      *)
(*         self, "anc" ancestor, "fol" following sibling, "pre" preceding  *)
(*   test  "name" (no namespace), "*", "text", "comment", "pi", "node"     *)
(*   pred  "" none, "pos" [n], "last", "attr" [@s], "attreq" [@n='s'],     *)
(*         "child" [n], "childeq" [n='s'], "is" [.='s'], "nochild"         *)
(***************************************************************************)
EXTENDS XmqDoc

\* The parent of every event: the element that is open (0 outside). Attributes and ends belong to their element.
RECURSIVE ParentsOf(_, _, _)
ParentsOf(ev, i, open) ==
  IF i > Len(ev) THEN <<>>
  ELSE LET up == IF open = <<>> THEN 0 ELSE open[Len(open)] IN
       <<up>> \o ParentsOf(ev, i+1, IF ev[i][1] = "E" THEN Append(open, i)
                                    ELSE IF ev[i][1] = ")" THEN SubSeq(open, 1, Len(open)-1) ELSE open)
Parents(ev) == ParentsOf(ev, 1, <<>>)

\* The last event of the node.
EndOf(ev, par, i) == IF ev[i][1] # "E" THEN i ELSE CHOOSE j \in i+1..Len(ev) : ev[j][1] = ")" /\ par[j] = i

PathNode(e) == e[1] \in {"E", "T", "C", "P", "A"}
Inner(e) == e[1] \in {"E", "T", "C", "P"}

RECURSIVE IsAbove(_, _, _)
IsAbove(par, up, i) == i # 0 /\ (par[i] = up \/ IsAbove(par, up, par[i]))

RECURSIVE ConcatOf(_)
ConcatOf(L) == IF L = <<>> THEN <<>> ELSE L[1] \o ConcatOf(Tail(L))
KidsText(kids) == ConcatOf([j \in 1..Len(kids) |-> IF kids[j][1] = "T" THEN kids[j][2] ELSE <<>>])

\* The text of a node.
ValueOf(ev, par, i) ==
  IF i = 0 THEN ConcatOf([j \in 1..Len(ev) |-> IF ev[j][1] = "T" THEN ev[j][2] ELSE <<>>])
  ELSE LET e == ev[i] IN
       CASE e[1] = "E" -> LET z == EndOf(ev, par, i) IN ConcatOf([j \in 1..z-i |-> IF ev[i+j][1] = "T" THEN ev[i+j][2] ELSE <<>>])
         [] e[1] = "A" -> KidsText(e[4])
         [] e[1] = "P" -> e[3]
         [] OTHER -> e[2]

ChildrenOf(ev, par, i) == {j \in 1..Len(ev) : par[j] = i /\ Inner(ev[j])}
AttrsOf(ev, par, i) == {j \in 1..Len(ev) : par[j] = i /\ i # 0 /\ ev[j][1] = "A"}

Along(ev, par, axis, i) ==
  CASE axis \in {"/", "//"} -> ChildrenOf(ev, par, i)
    [] axis = "@" -> AttrsOf(ev, par, i)
    [] axis = ".." -> IF i = 0 THEN {} ELSE {par[i]}
    [] axis = "." -> {i}
    [] axis = "anc" -> {j \in 0..Len(ev) : IsAbove(par, j, i)}
    [] axis = "fol" -> IF i = 0 \/ ev[i][1] = "A" THEN {} ELSE {j \in ChildrenOf(ev, par, par[i]) : j > i}
    [] axis = "pre" -> IF i = 0 \/ ev[i][1] = "A" THEN {} ELSE {j \in ChildrenOf(ev, par, par[i]) : j < i}

Passes(ev, st, i) ==
  IF i = 0 THEN st.test = "node"
  ELSE LET e == ev[i] IN
  CASE st.test = "node" -> TRUE
    [] st.test = "*" -> e[1] = "E" \/ (st.axis = "@" /\ e[1] = "A")
    [] st.test = "text" -> e[1] = "T"
    [] st.test = "comment" -> e[1] = "C"
    [] st.test = "pi" -> e[1] = "P"
    [] st.test = "name" -> IF st.axis = "@" THEN e[1] = "A" /\ e[2] = st.name /\ e[3] = <<>>
                           ELSE e[1] = "E" /\ e[2] = st.name /\ e[4] = <<>>

\* Is the node the one that the predicate asks for, among the nodes c of one step from one node.
Holds(ev, par, st, c, i) ==
  LET named(n) == {j \in ChildrenOf(ev, par, i) : ev[j][1] = "E" /\ ev[j][2] = n /\ ev[j][4] = <<>>}
      attr(n) == {j \in AttrsOf(ev, par, i) : ev[j][2] = n /\ ev[j][3] = <<>>} IN
  CASE st.pred = "" -> TRUE
    [] st.pred = "pos" -> Cardinality({j \in c : IF st.axis \in {"anc", "pre"} THEN j >= i ELSE j <= i}) = st.n   \* counted away from where the axis starts
    [] st.pred = "last" -> \A j \in c : IF st.axis \in {"anc", "pre"} THEN j >= i ELSE j <= i
    [] st.pred = "attr" -> attr(st.s) # {}
    [] st.pred = "attreq" -> \E j \in attr(st.m) : ValueOf(ev, par, j) = st.s
    [] st.pred = "child" -> named(st.s) # {}
    [] st.pred = "nochild" -> named(st.s) = {}
    [] st.pred = "childeq" -> \E j \in named(st.m) : ValueOf(ev, par, j) = st.s
    [] st.pred = "is" -> ValueOf(ev, par, i) = st.s

StepFrom(ev, par, st, i) ==
  LET c == {j \in Along(ev, par, st.axis, i) : Passes(ev, st, j)} IN {j \in c : Holds(ev, par, st, c, j)}
OneStep(ev, par, st, S) ==
  LET from == IF st.axis = "//" THEN {j \in 0..Len(ev) : j \in S \/ (j # 0 /\ Inner(ev[j]) /\ \E i \in S : IsAbove(par, i, j))} ELSE S
  IN UNION {StepFrom(ev, par, st, i) : i \in from}
RECURSIVE Steps(_, _, _, _, _)
Steps(ev, par, p, q, S) == IF q > Len(p) THEN S ELSE Steps(ev, par, p, q+1, OneStep(ev, par, p[q], S))

\* The nodes of a path from the node i, the nodes of several paths.
NodesFrom(ev, p, i) == Steps(ev, Parents(ev), p, 1, {i})
NodesOf(ev, paths) == UNION {NodesFrom(ev, paths[j], 0) : j \in 1..Len(paths)}

\* Does it matter to the path where a text ends and the next starts, or what an entity stands for.
TextSensitive(p) == \E q \in 1..Len(p) : (p[q].test = "text" /\ p[q].pred # "") \/ (p[q].test = "node" /\ p[q].pred \in {"pos", "last"})
ValueSensitive(p) == \E q \in 1..Len(p) : p[q].pred \in {"attreq", "childeq", "is"}
RECURSIVE HasEntity(_)
HasEntity(ev) == \E i \in 1..Len(ev) : ev[i][1] = "R" \/ (ev[i][1] = "A" /\ HasEntity(ev[i][4]))
AdjacentTexts(ev) == \E i \in 1..Len(ev)-1 : ev[i][1] = "T" /\ ev[i+1][1] = "T"
EmptyTexts(ev) == \E i \in 1..Len(ev) : ev[i] = <<"T", <<>>>>
Decided(ev, p) == /\ TextSensitive(p) => ~AdjacentTexts(ev) /\ ~EmptyTexts(ev)
                  /\ ValueSensitive(p) => ~HasEntity(ev)
=============================================================================
