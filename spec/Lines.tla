------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* The listing of a document: a line  path="text"  for every attribute,    *)
(* every text and every element with nothing inside, in document order.    *)
(* The path has the names of the open elements, and /@name of an attribute.*)
(* The text is written as a C string.  And the plain text of a document.   *)
(***************************************************************************)
EXTENDS XmqPath, CString

Prefixed(e) == IF e[3] = <<>> THEN e[2] ELSE e[3][1] \o <<58>> \o e[2]
RECURSIVE PathTo(_, _, _, _)
PathTo(ev, par, i, qual) == IF i = 0 THEN <<>> ELSE PathTo(ev, par, par[i], qual) \o <<47>> \o (IF qual THEN Prefixed(ev[i]) ELSE ev[i][2])

\* An element with nothing inside is listed where it ends.
RECURSIVE HeadAt(_, _)
HeadAt(ev, i) == IF ev[i][1] \in {"N", "A"} THEN HeadAt(ev, i-1) ELSE i
EndsEmpty(ev, i) == ev[i][1] = ")" /\ ev[HeadAt(ev, i-1)][1] = "E"
Listed(ev) == SelectSeq([i \in 1..Len(ev) |-> i], LAMBDA i : ev[i][1] \in {"A", "T"} \/ EndsEmpty(ev, i))
\* The line of the event i: <<path, text, is the text decided>>.
LineOf(ev, par, i, qual) ==
  CASE ev[i][1] = "A" -> <<PathTo(ev, par, par[i], qual) \o <<47, 64>> \o Prefixed(ev[i]), KidsText(ev[i][4]), ~HasEntity(ev[i][4])>>
    [] ev[i][1] = "T" -> <<PathTo(ev, par, par[i], qual), ev[i][2], TRUE>>
    [] OTHER -> <<PathTo(ev, par, par[i], qual), <<>>, TRUE>>
Listing(ev, qual) == LET par == Parents(ev)  at == Listed(ev) IN [j \in 1..Len(at) |-> LineOf(ev, par, at[j], qual)]

\* Is the printed text s a listing L: each line the path, an equals sign and the C string.
NlAt(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 10)
IsLine(s, l) == LET m == Len(l[1]) IN
  /\ Len(s) > m /\ SubSeq(s, 1, m) = l[1] /\ s[m+1] = 61
  /\ LET q == SubSeq(s, m+2, Len(s)) IN IF l[3] THEN IsC(q, l[2]) ELSE ReadC(q, 1).end = Len(q) + 1
IsListing(s, L) == LET at == NlAt(s) IN
  /\ Len(at) = Len(L) /\ (s = <<>> \/ s[Len(s)] = 10)
  /\ \A j \in 1..Len(L) : IsLine(SubSeq(s, IF j = 1 THEN 1 ELSE at[j-1] + 1, at[j] - 1), L[j])

WriteListing(L) == ConcatOf([j \in 1..Len(L) |-> L[j][1] \o <<61>> \o WriteC(L[j][2]) \o <<10>>])

\* The plain text of a document is all of its texts, in order; what an entity stands for there is open.
PlainText(ev) == ConcatOf([i \in 1..Len(ev) |-> IF ev[i][1] = "T" THEN ev[i][2] ELSE <<>>])
=============================================================================
