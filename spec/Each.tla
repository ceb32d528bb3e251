-------------------------------- MODULE Each --------------------------------
(***************************************************************************)
(* A shell command for each node of a path.  The command is run once per   *)
(* node, in the order of the document, for the element that the node is or *)
(* is in.  ${name} in it stands for the text of the children with that     *)
(* name, ${.} for the text of the element, ${..} for its name: as data,    *)
(* whatever it looks like.  The document is left as it is.                 *)
(*                                                                         *)
(* A command is printf '<%s>' . W..., each word W a sequence of parts:     *)
(*   ["lit", t]    bytes that mean themselves to the shell                 *)
(*   ["in", name]  "${name}", in double quotes                             *)
(*   ["bare", name] ${name}, without quotes: blanks separate words in it   *)
(***************************************************************************)
EXTENDS Pipe

RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o InOrder(S \ {m})

\* The element of a node: 0 when there is none.
RECURSIVE ElementOf(_, _, _)
ElementOf(ev, par, i) == IF i = 0 \/ ev[i][1] = "E" THEN i ELSE ElementOf(ev, par, par[i])
RunsFor(ev, S) == LET par == Parents(ev)  L == InOrder(S) IN
                  SelectSeq([j \in 1..Len(L) |-> ElementOf(ev, par, L[j])], LAMBDA i : i # 0)

CharCode(e) == e[1] = "R" /\ e[2] # <<>> /\ e[2][1] = 35
Predefined == {<<<<108,116>>, 60>>, <<<<103,116>>, 62>>, <<<<97,109,112>>, 38>>, <<<<113,117,111,116>>, 34>>, <<<<97,112,111,115>>, 39>>}   \* lt gt amp quot apos
Meant(e) == {x \in Predefined : e[1] = "R" /\ x[1] = e[2]}
OwnText(e) == IF e[1] = "T" THEN e[2] ELSE IF CharCode(e) THEN CharText(e) ELSE IF Meant(e) # {} THEN <<(CHOOSE x \in Meant(e) : TRUE)[2]>> ELSE <<>>
TextBelow(ev, par, i) == ConcatOf([j \in 1..EndOf(ev, par, i)-i |-> OwnText(ev[i+j])])
Named(ev, par, i, name) == InOrder({j \in 1..Len(ev) : par[j] = i /\ ev[j][1] = "E" /\ ev[j][2] = name})
Value(ev, par, i, name) ==
  IF name = <<46>> THEN TextBelow(ev, par, i)
  ELSE IF name = <<46, 46>> THEN ev[i][2]
  ELSE LET L == Named(ev, par, i, name) IN ConcatOf([j \in 1..Len(L) |-> TextBelow(ev, par, L[j])])
\* Left open: entities whose text is not known, and children that have elements in them.
Known(ev, par, i, name) ==
  LET plain(m) == \A j \in m..EndOf(ev, par, m) : ev[j][1] = "R" => CharCode(ev[j]) \/ Meant(ev[j]) # {} IN
  IF name = <<46, 46>> THEN TRUE
  ELSE IF name = <<46>> THEN plain(i)
  ELSE \A m \in {Named(ev, par, i, name)[j] : j \in 1..Len(Named(ev, par, i, name))} :
         plain(m) /\ \A j \in m+1..EndOf(ev, par, m) : ev[j][1] # "E"

\* The characters of a word, -1 where it can be split, -2 for quotes (which make a word of nothing).
IsGap(ch) == ch \in {9, 10, 32}
Chars(ev, par, i, part) ==
  CASE part[1] = "lit" -> part[2]
    [] part[1] = "in" -> <<0-2>> \o Value(ev, par, i, part[2])
    [] part[1] = "bare" -> LET v == Value(ev, par, i, part[2]) IN [j \in 1..Len(v) |-> IF IsGap(v[j]) THEN 0-1 ELSE v[j]]
RECURSIVE Split(_, _, _, _)
Split(x, q, cur, out) ==
  LET done == IF cur = <<>> THEN out ELSE Append(out, SelectSeq(cur, LAMBDA ch : ch # 0-2)) IN
  IF q > Len(x) THEN done
  ELSE IF x[q] = 0-1 THEN Split(x, q+1, <<>>, done) ELSE Split(x, q+1, Append(cur, x[q]), out)
Words(ev, par, i, word) == Split(ConcatOf([j \in 1..Len(word) |-> Chars(ev, par, i, word[j])]), 1, <<>>, <<>>)
Bracket(t) == <<60>> \o t \o <<62>>
OneRun(ev, par, i, words) ==
  LET fs == <<<<46>>>> \o ConcatOf([j \in 1..Len(words) |-> Words(ev, par, i, words[j])])
  IN ConcatOf([j \in 1..Len(fs) |-> Bracket(fs[j])])
Names(words) == UNION {{words[j][q][2] : q \in {z \in 1..Len(words[j]) : words[j][z][1] # "lit"}} : j \in 1..Len(words)}
\* Bare values with signs that match file names are left open.
Globs(ev, par, i, words) == \E j \in 1..Len(words) : \E q \in 1..Len(words[j]) :
  words[j][q][1] = "bare" /\ LET v == Value(ev, par, i, words[j][q][2]) IN \E z \in 1..Len(v) : v[z] \in {42, 63, 91}
Defined(ev, S, words) == LET par == Parents(ev)  L == RunsFor(ev, S) IN
  \A j \in 1..Len(L) : ~Globs(ev, par, L[j], words) /\ \A n \in Names(words) : Known(ev, par, L[j], n)

\* The state machine of the command: what is left to be run, what has been written.
EachInit(ev, S) == [left |-> RunsFor(ev, S), out |-> <<>>]
EachNext(ev, x, words) == [left |-> Tail(x.left), out |-> x.out \o OneRun(ev, Parents(ev), x.left[1], words)]
RECURSIVE EachRun(_, _, _)
EachRun(ev, x, words) == IF x.left = <<>> THEN x ELSE EachRun(ev, EachNext(ev, x, words), words)
Output(ev, S, words) == EachRun(ev, EachInit(ev, S), words).out
=============================================================================
