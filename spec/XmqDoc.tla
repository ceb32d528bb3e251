------------------------------- MODULE XmqDoc -------------------------------
(***************************************************************************)
(* When two documents (event sequences, see XmqTree) have the same content.*)
(* Texts are compared after merging: adjacent texts are one text, an empty *)
(* text next to something is nothing, &apos; is a quote character.  The    *)
(* order of the namespace declarations of an element is not content.       *)
(***************************************************************************)
EXTENDS XmqTree

\* The namespaces that the elements and attributes of a document are in.
RECURSIVE OwnNs(_, _)
OwnNs(ev, k) == IF k > Len(ev) \/ ev[k][1] # "N" THEN <<>> ELSE <<[prefix |-> ev[k][2], href |-> ev[k][3]]>> \o OwnNs(ev, k+1)
RECURSIVE Resolved(_, _, _)
Resolved(ev, k, st) ==
  IF k > Len(ev) THEN <<>>
  ELSE LET e == ev[k] IN
       CASE e[1] = "E" -> LET x == Append(st, OwnNs(ev, k+1)) IN
                          <<<<"E", e[2], e[3], HrefOf(x, e[3])>>>> \o Resolved(ev, k+1, x)
         [] e[1] = "A" -> <<<<"A", e[2], e[3], e[4], IF e[3] = <<>> THEN <<>> ELSE HrefOf(st, e[3])>>>> \o Resolved(ev, k+1, st)
         [] e[1] = ")" -> <<e>> \o Resolved(ev, k+1, SubSeq(st, 1, Len(st)-1))
         [] OTHER -> <<e>> \o Resolved(ev, k+1, st)

\* Is every prefix in use declared.
PrefixesDeclared(ev) == \A k \in 1..Len(ev) : (ev[k][1] = "E" /\ ev[k][3] # <<>> => ev[k][4] # <<>>) /\ (ev[k][1] = "A" /\ ev[k][3] # <<>> => ev[k][5] # <<>>)

Apos == <<97, 112, 111, 115>>
TextEv(e) == e[1] = "T" \/ (e[1] = "R" /\ e[2] = Apos)
TextOf(e) == IF e[1] = "R" THEN <<QUO>> ELSE e[2]

\* Merge the texts of a sequence of nodes, starting with what is in out.
RECURSIVE MergeTexts(_, _, _)
MergeTexts(ev, k, out) ==
  IF k > Len(ev) THEN out
  ELSE LET e == ev[k] IN
       IF TextEv(e)
       THEN IF out # <<>> /\ out[Len(out)][1] = "T"
            THEN MergeTexts(ev, k+1, [out EXCEPT ![Len(out)] = <<"T", @[2] \o TextOf(e)>>])
            ELSE MergeTexts(ev, k+1, Append(out, <<"T", TextOf(e)>>))
       ELSE IF e[1] = "A"
       THEN MergeTexts(ev, k+1, Append(out, <<"A", e[2], e[3], SelectSeq(MergeTexts(e[4], 1, <<>>), LAMBDA x : x # <<"T", <<>>>>), e[5]>>))
       ELSE MergeTexts(ev, k+1, Append(out, e))

\* Comments: the blanks around the lines of a comment, and blank lines at its ends, are layout. A comment
\* without any is kept byte for byte.
Blank == {SP, TAB}
RECURSIVE StripL(_)
StripL(t) == IF t # <<>> /\ t[1] \in Blank THEN StripL(Tail(t)) ELSE t
RECURSIVE StripR(_)
StripR(t) == IF t # <<>> /\ t[Len(t)] \in Blank THEN StripR(SubSeq(t, 1, Len(t)-1)) ELSE t
RECURSIVE SplitNl(_, _, _)
SplitNl(t, k, a) == IF k > Len(t) THEN <<SubSeq(t, a, Len(t))>>
                    ELSE IF t[k] = NL THEN <<SubSeq(t, a, k-1)>> \o SplitNl(t, k+1, k+1)
                    ELSE SplitNl(t, k+1, a)
RECURSIVE DropEmpty(_)
DropEmpty(L) == IF L # <<>> /\ L[1] = <<>> THEN DropEmpty(Tail(L))
                ELSE IF L # <<>> /\ L[Len(L)] = <<>> THEN DropEmpty(SubSeq(L, 1, Len(L)-1))
                ELSE L
CommentLines(t) == LET L == SplitNl(t, 1, 1) IN DropEmpty([k \in 1..Len(L) |-> StripR(StripL(L[k]))])
PlainComment(t) == LET L == SplitNl(t, 1, 1) IN
                   /\ t # <<>> => t[1] \notin Blank \cup {NL} /\ t[Len(t)] # NL
                   /\ \A k \in 1..Len(L) : StripR(L[k]) = L[k]
\* A processing instruction is written in a single quote, which cannot hold blanks at the ends of its lines, nor
\* the indentation of what must be written on lines of its own. Without any of these it is kept byte for byte.
PlainPi(t) == LET L == SplitNl(t, 1, 1) IN
              /\ Len(L) > 1 => L[1] # <<>> /\ t[1] \notin Blank /\ \A k \in 1..Len(L) : StripR(L[k]) = L[k]
              /\ ~\E k \in 1..Len(t)-2 : t[k] = QUO /\ t[k+1] = QUO /\ t[k+2] = QUO
SamePi(x, y) == x[2] = y[2] /\ ~PlainPi(y[3]) /\ CommentLines(x[3]) = CommentLines(y[3])
\* With loose, the blanks are not kept for any comment of several lines.
SameNode(x, y, loose) ==
  x = y \/ (y[1] = "P" /\ x[1] = "P" /\ SamePi(x, y)) \/ (y[1] = "C" /\ x[1] = "C" /\ (~PlainComment(y[2]) \/ (loose /\ Len(CommentLines(y[2])) > 1)) /\ CommentLines(x[2]) = CommentLines(y[2]))

NotEmptyText(e) == e # <<"T", <<>>>>
IsNs(e) == e[1] = "N"
Content(ev) == SelectSeq(MergeTexts(SelectSeq(ev, LAMBDA e : ~IsNs(e)), 1, <<>>), NotEmptyText)
ElementsBefore(ev, k) == Cardinality({j \in 1..k : ev[j][1] = "E"})
Namespaces(ev) == {<<ElementsBefore(ev, k), ev[k]>> : k \in {j \in 1..Len(ev) : IsNs(ev[j])}}

\* Is a what is left of b.
SameContent(x, y, loose) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameNode(x[k], y[k], loose)
SameDocument(a, b, loose) ==
  /\ SameContent(Content(a), Content(b), loose)
  /\ Namespaces(a) = Namespaces(b)
=============================================================================
