-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* Log lines.  A call names an element and gives it keys with values, or a *)
(* single value; the line is a single line of xmq with that element, and   *)
(* the values in it are the values that were given.                        *)
(* A call is [name, mark, kvs]: mark "keys" with keys <<key, value>>, "=" with *)
(* a single value, "text" when name is the value itself.                        *)
(***************************************************************************)
EXTENDS XmqDoc

LogName == <<108, 111, 103>>
Filled(t) == IF t = <<>> THEN <<>> ELSE <<<<"T", t>>>>
Element(n, kids) == <<<<"E", n, <<>>, <<>>>>>> \o kids \o <<<<")">>>>
RECURSIVE Flat(_)
Flat(L) == IF L = <<>> THEN <<>> ELSE L[1] \o Flat(Tail(L))
LineDoc(c) ==
  CASE c.mark = "keys" -> Element(c.name, Flat([j \in 1..Len(c.kvs) |-> Element(c.kvs[j][1], Filled(c.kvs[j][2]))]))
    [] c.mark = "value" -> Element(c.name, Filled(c.kvs[1][2]))
    [] OTHER -> Element(LogName, Filled(c.name))

\* The line builder: a line that is begun, and gets its keys one by one.
LineInit(name) == [name |-> name, mark |-> "keys", kvs |-> <<>>]
LineAdd(c, key, value) == [c EXCEPT !.kvs = Append(@, <<key, value>>)]

SingleLine(s) == \A j \in 1..Len(s) : s[j] \notin {10, 13}
\* Empty texts come and go.
Bare(ev) == SelectSeq(ev, LAMBDA e : e # <<"T", <<>>>>)
Says(s, doc) ==
  LET p == ParseWith(s, <<>>, TRUE) IN
  IF ~p.ok THEN "not-xmq"
  ELSE IF p.unspec THEN "undefined"
  ELSE IF ~SameDocument(Bare(p.ev), doc, TRUE) THEN "different"
  ELSE IF ~SingleLine(s) THEN "not-one-line"
  ELSE "ok"

\* For humans: the name in parentheses, then every key and value, with a blank between two of them.
RECURSIVE Pairs(_, _, _)
Pairs(kvs, j, sign) == IF j > Len(kvs) THEN <<>> ELSE (IF j > 1 THEN <<32>> ELSE <<>>) \o kvs[j][1] \o sign \o kvs[j][2] \o Pairs(kvs, j+1, sign)
Human(c) ==
  CASE c.mark = "keys" -> {<<40>> \o c.name \o b \o <<41, 32>> \o Pairs(c.kvs, 1, sign) : b \in {<<>>, <<123>>}, sign \in {<<58>>, <<61>>}}
    [] c.mark = "value" -> {<<40>> \o c.name \o <<41, 32>> \o c.kvs[1][2]}
    [] OTHER -> {<<40>> \o LogName \o <<41, 32>> \o c.name}
=============================================================================
