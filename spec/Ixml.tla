-------------------------------- MODULE Ixml --------------------------------
(***************************************************************************)
(* Parsing with an invisible xml grammar.  A grammar is a sequence of      *)
(* rules [name, mark, alias, alts]; an alternative is a sequence of terms: *)
(*   <<"lit", mark, chars>>           the characters                       *)
(*   <<"set", mark, exclude, parts>>  one character of the set             *)
(*   <<"nt", mark, name>>             a rule                               *)
(*   <<"grp", alts>>                  a group                              *)
(*   <<"ins", chars>>                 characters that are only inserted    *)
(*   <<"opt"|"plus"|"star", term>>, <<"plus2"|"star2", term, separator>>   *)
(* The texts are sequences of code points.  The documents of a text are    *)
(* those of its derivations from the first rule.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Deleted == 45   \* -
AtMark == 64    \* @
HatMark == 94   \* ^

-----------------------------------------------------------------------------
(* The characters of a set: <<"r", from, to>>, <<"s", chars>> or <<"c", category>>. *)
CategoryOf(c) ==
  CASE c \in 0..31 \cup 127..159 -> "Cc" [] c \in {32, 160, 8195} -> "Zs" [] c \in 48..57 \cup {1632} -> "Nd"
    [] c \in 65..90 \cup {197, 66560} -> "Lu" [] c \in 97..122 \cup {229, 66600} -> "Ll" [] c = 453 -> "Lt"
    [] c \in {688, 12293} -> "Lm" [] c \in {4116, 20013, 54620, 131072, 170} -> "Lo"
    [] c = 768 -> "Mn" [] c = 2307 -> "Mc" [] c = 1160 -> "Me" [] c \in {8544, 65856} -> "Nl" [] c = 178 -> "No"
    [] c = 95 -> "Pc" [] c \in {45, 8212} -> "Pd" [] c \in {40, 91, 123} -> "Ps" [] c \in {41, 93, 125} -> "Pe" [] c = 171 -> "Pi" [] c = 187 -> "Pf"
    [] c \in {33, 34, 35, 37, 38, 39, 42, 44, 46, 47, 58, 59, 63, 64, 92} -> "Po"
    [] c \in {43, 60, 61, 62, 124, 126, 8721} -> "Sm" [] c \in {36, 8364} -> "Sc" [] c \in {94, 96} -> "Sk" [] c \in {169, 128512} -> "So"
    [] c = 8232 -> "Zl" [] c = 8233 -> "Zp" [] c \in {173, 65279} -> "Cf" [] c = 57344 -> "Co" [] c = 888 -> "Cn"
Major(m) ==
  CASE m \in {"Lu", "Ll", "Lt", "Lm", "Lo"} -> "L" [] m \in {"Mn", "Mc", "Me"} -> "M" [] m \in {"Nd", "Nl", "No"} -> "N"
    [] m \in {"Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po"} -> "P" [] m \in {"Sm", "Sc", "Sk", "So"} -> "S" [] m \in {"Zs", "Zl", "Zp"} -> "Z"
    [] OTHER -> "C"
InCategory(c, name) == LET m == CategoryOf(c) IN m = name \/ Major(m) = name \/ (name = "LC" /\ m \in {"Lu", "Ll", "Lt"})
InPart(p, c) == CASE p[1] = "r" -> c >= p[2] /\ c <= p[3]
                  [] p[1] = "s" -> \E x \in 1..Len(p[2]) : p[2][x] = c
                  [] p[1] = "c" -> InCategory(c, p[2])
InSet(f, c) == (\E x \in 1..Len(f[4]) : InPart(f[4][x], c)) # f[3]

-----------------------------------------------------------------------------
(* Which terms derive the empty text, and which grammars have a derivation  *)
(* that contains itself on the same text: those may be refused.             *)
RuleAt(G, name) == IF \E r \in 1..Len(G) : G[r].name = name THEN CHOOSE r \in 1..Len(G) : G[r].name = name /\ \A x \in 1..(r-1) : G[x].name # name ELSE 0
RECURSIVE Nullable(_, _, _)
Nullable(G, f, empties) ==
  CASE f[1] = "lit" -> f[3] = <<>>
    [] f[1] = "set" -> FALSE
    [] f[1] = "ins" -> TRUE
    [] f[1] = "nt" -> f[3] \in empties
    [] f[1] = "grp" -> \E a \in 1..Len(f[2]) : \A x \in 1..Len(f[2][a]) : Nullable(G, f[2][a][x], empties)
    [] f[1] \in {"opt", "star", "star2"} -> TRUE
    [] OTHER -> Nullable(G, f[2], empties)
RECURSIVE Empties(_, _)
Empties(G, have) == LET more == have \cup {G[r].name : r \in {x \in 1..Len(G) : \E a \in 1..Len(G[x].alts) : \A y \in 1..Len(G[x].alts[a]) : Nullable(G, G[x].alts[a][y], have)}}
                    IN IF more = have THEN have ELSE Empties(G, more)
\* The rules a term can stand for all alone.
RECURSIVE Alone(_, _, _)
AloneIn(G, alts, em) == UNION {UNION {IF \A y \in (1..Len(alts[a])) \ {x} : Nullable(G, alts[a][y], em) THEN Alone(G, alts[a][x], em) ELSE {} : x \in 1..Len(alts[a])} : a \in 1..Len(alts)}
Alone(G, f, em) ==
  CASE f[1] = "nt" -> {f[3]}
    [] f[1] = "grp" -> AloneIn(G, f[2], em)
    [] f[1] \in {"opt", "plus", "star"} -> Alone(G, f[2], em)
    [] f[1] \in {"plus2", "star2"} -> Alone(G, f[2], em) \cup (IF Nullable(G, f[2], em) THEN Alone(G, f[3], em) ELSE {})
    [] OTHER -> {}
RECURSIVE ReachAlone(_, _, _)
ReachAlone(G, from, em) == LET more == from \cup UNION {AloneIn(G, G[r].alts, em) : r \in {x \in 1..Len(G) : G[x].name \in from}}
                           IN IF more = from THEN from ELSE ReachAlone(G, more, em)
RECURSIVE EndlessRepeat(_, _, _)
EndlessRepeat(G, f, em) ==
  CASE f[1] \in {"plus", "star"} -> Nullable(G, f[2], em) \/ EndlessRepeat(G, f[2], em)
    [] f[1] \in {"plus2", "star2"} -> (Nullable(G, f[2], em) /\ Nullable(G, f[3], em)) \/ EndlessRepeat(G, f[2], em) \/ EndlessRepeat(G, f[3], em)
    [] f[1] = "opt" -> EndlessRepeat(G, f[2], em)
    [] f[1] = "grp" -> \E a \in 1..Len(f[2]) : \E x \in 1..Len(f[2][a]) : EndlessRepeat(G, f[2][a][x], em)
    [] OTHER -> FALSE
RECURSIVE Names(_)
Names(f) ==
  CASE f[1] = "nt" -> {f[3]}
    [] f[1] \in {"opt", "plus", "star"} -> Names(f[2])
    [] f[1] \in {"plus2", "star2"} -> Names(f[2]) \cup Names(f[3])
    [] f[1] = "grp" -> UNION {UNION {Names(f[2][a][x]) : x \in 1..Len(f[2][a])} : a \in 1..Len(f[2])}
    [] OTHER -> {}
Cyclic(G) ==
  LET em == Empties(G, {}) IN
  \/ \E r \in 1..Len(G) : G[r].name \in ReachAlone(G, AloneIn(G, G[r].alts, em), em)
  \/ \E r \in 1..Len(G) : \E a \in 1..Len(G[r].alts) : \E x \in 1..Len(G[r].alts[a]) : EndlessRepeat(G, G[r].alts[a][x], em)
\* Grammars that say something: every rule is there once, and the first one gives the root element.
Proper(G) ==
  /\ \A r, x \in 1..Len(G) : G[r].name = G[x].name => r = x
  /\ \A r \in 1..Len(G) : \A a \in 1..Len(G[r].alts) : \A x \in 1..Len(G[r].alts[a]) : \A m \in Names(G[r].alts[a][x]) : RuleAt(G, m) # 0
  /\ G[1].mark \in {0, HatMark}
  /\ ~Cyclic(G)

-----------------------------------------------------------------------------
(* The derivations <<items, text, choices>> of the span i..j-1 of the text w.  P is the grammar with its Empties. *)
(* An item is <<"T", chars>>, <<"E", name, items>> or <<"A", name, chars>>. *)
(* The text is all that is not deleted, of elements and attributes too.     *)
Shown(r) == IF r.alias = <<>> THEN r.name ELSE r.alias
RECURSIVE Derive(_, _, _, _, _)
RECURSIVE DeriveSeq(_, _, _, _, _, _)
RECURSIVE DeriveMany(_, _, _, _, _, _)
DeriveSeq(P, fs, n, w, i, j) ==
  IF n > Len(fs) THEN (IF i = j THEN {<< <<>>, <<>>, <<>> >>} ELSE {})
  ELSE IF n = Len(fs) THEN Derive(P, fs[n], w, i, j)
  ELSE UNION {LET first == IF m = j /\ ~(\A x \in (n+1)..Len(fs) : Nullable(P.rules, fs[x], P.empties)) THEN {} ELSE Derive(P, fs[n], w, i, m) IN
              IF first = {} THEN {} ELSE {<<a[1] \o b[1], a[2] \o b[2], <<m>> \o a[3] \o b[3]>> : a \in first, b \in DeriveSeq(P, fs, n+1, w, m, j)} : m \in i..j}
DeriveAlts(P, alts, w, i, j) == UNION {{<<d[1], d[2], <<100 + a>> \o d[3]>> : d \in DeriveSeq(P, alts[a], 1, w, i, j)} : a \in 1..Len(alts)}
\* f (sep f)*
DeriveMany(P, f, sep, w, i, j) ==
  {<<d[1], d[2], <<301>> \o d[3]>> : d \in Derive(P, f, w, i, j)} \cup
  UNION {LET first == Derive(P, f, w, i, m) IN
         IF first = {} THEN {} ELSE
         UNION {IF k = i THEN {} ELSE
                LET mid == DeriveSeq(P, sep, 1, w, m, k) IN
                IF mid = {} THEN {}
                ELSE {<<a[1] \o s[1] \o b[1], a[2] \o s[2] \o b[2], <<302, m, k>> \o a[3] \o s[3] \o b[3]>> :
                       a \in first, s \in mid, b \in DeriveMany(P, f, sep, w, k, j)} : k \in m..j} : m \in i..(j-1)}
None(i, j) == IF i = j THEN {<< <<>>, <<>>, <<201>> >>} ELSE {}
Derive(P, f, w, i, j) ==
  CASE f[1] = "lit" -> IF SubSeq(w, i, j-1) = f[3] THEN (IF f[2] = Deleted \/ f[3] = <<>> THEN {<< <<>>, <<>>, <<>> >>} ELSE {<< <<<<"T", f[3]>>>>, f[3], <<>> >>}) ELSE {}
    [] f[1] = "set" -> IF j = i+1 /\ InSet(f, w[i]) THEN (IF f[2] = Deleted THEN {<< <<>>, <<>>, <<>> >>} ELSE {<< <<<<"T", <<w[i]>>>>>>, <<w[i]>>, <<>> >>}) ELSE {}
    [] f[1] = "ins" -> IF i = j THEN {<< <<<<"T", f[2]>>>>, f[2], <<>> >>} ELSE {}
    [] f[1] = "nt" -> LET r == P.rules[RuleAt(P.rules, f[3])]
                          mark == IF f[2] # 0 THEN f[2] ELSE r.mark
                          item(d) == CASE mark = Deleted -> d[1] [] mark = AtMark -> <<<<"A", Shown(r), d[2]>>>> [] OTHER -> <<<<"E", Shown(r), d[1]>>>>
                      IN {<<item(d), d[2], d[3]>> : d \in DeriveAlts(P, r.alts, w, i, j)}
    [] f[1] = "grp" -> DeriveAlts(P, f[2], w, i, j)
    [] f[1] = "opt" -> None(i, j) \cup {<<d[1], d[2], <<202>> \o d[3]>> : d \in Derive(P, f[2], w, i, j)}
    [] f[1] = "plus" -> DeriveMany(P, f[2], <<>>, w, i, j)
    [] f[1] = "star" -> None(i, j) \cup {<<d[1], d[2], <<202>> \o d[3]>> : d \in DeriveMany(P, f[2], <<>>, w, i, j)}
    [] f[1] = "plus2" -> DeriveMany(P, f[2], <<f[3]>>, w, i, j)
    [] f[1] = "star2" -> None(i, j) \cup {<<d[1], d[2], <<202>> \o d[3]>> : d \in DeriveMany(P, f[2], <<f[3]>>, w, i, j)}

\* All derivations of the whole text (of a grammar that is not cyclic).
Derivations(G, w) == LET P == [rules |-> G, empties |-> Empties(G, {})] IN Derive(P, <<"nt", HatMark, G[1].name>>, w, 1, Len(w)+1)

-----------------------------------------------------------------------------
(* Where a text without derivation goes wrong: at the first character that  *)
(* no sentence with the same beginning has there, or at the end.            *)
(* This has a meaning when every rule derives something.                    *)
RECURSIVE Gives(_, _)
Gives(f, good) ==
  CASE f[1] = "nt" -> f[3] \in good
    [] f[1] = "grp" -> \E a \in 1..Len(f[2]) : \A x \in 1..Len(f[2][a]) : Gives(f[2][a][x], good)
    [] f[1] = "plus" -> Gives(f[2], good)
    [] f[1] = "plus2" -> Gives(f[2], good)
    [] OTHER -> TRUE
RECURSIVE Sound(_, _)
Sound(G, good) == LET more == good \cup {G[r].name : r \in {x \in 1..Len(G) : \E a \in 1..Len(G[x].alts) : \A y \in 1..Len(G[x].alts[a]) : Gives(G[x].alts[a][y], good)}}
                  IN IF more = good THEN \A r \in 1..Len(G) : G[r].name \in good ELSE Sound(G, more)
EmptySet(f) == f[1] = "set" /\ f[4] = <<>> /\ ~f[3]
RECURSIVE HasEmptySet(_)
HasEmptySet(f) ==
  CASE f[1] = "set" -> EmptySet(f)
    [] f[1] \in {"opt", "plus", "star"} -> HasEmptySet(f[2])
    [] f[1] \in {"plus2", "star2"} -> HasEmptySet(f[2]) \/ HasEmptySet(f[3])
    [] f[1] = "grp" -> \E a \in 1..Len(f[2]) : \E x \in 1..Len(f[2][a]) : HasEmptySet(f[2][a][x])
    [] OTHER -> FALSE
Placed(G) == Sound(G, {}) /\ ~\E r \in 1..Len(G) : \E a \in 1..Len(G[r].alts) : \E x \in 1..Len(G[r].alts[a]) : HasEmptySet(G[r].alts[a][x])
\* Is w[i..] the beginning of something that the term derives? seen are the rules being looked at from i.
RECURSIVE Begins(_, _, _, _, _)
RECURSIVE BeginsSeq(_, _, _, _, _, _)
BeginsSeq(P, fs, n, w, i, seen) ==
  IF n > Len(fs) THEN i = Len(w)+1
  ELSE \/ Begins(P, fs[n], w, i, seen)
       \/ n < Len(fs) /\ \E m \in i..(Len(w)+1) : Derive(P, fs[n], w, i, m) # {} /\ BeginsSeq(P, fs, n+1, w, m, IF m = i THEN seen ELSE {})
BeginsMany(P, f, sep, w, i, seen) ==
  \/ Begins(P, f, w, i, seen)
  \/ \E m \in i..(Len(w)+1) : DeriveMany(P, f, sep, w, i, m) # {} /\ BeginsSeq(P, Append(sep, f), 1, w, m, IF m = i THEN seen ELSE {})
Begins(P, f, w, i, seen) ==
  CASE f[1] = "lit" -> Len(w)+1 - i <= Len(f[3]) /\ SubSeq(w, i, Len(w)) = SubSeq(f[3], 1, Len(w)+1 - i)
    [] f[1] = "set" -> i = Len(w)+1 \/ (i = Len(w) /\ InSet(f, w[i]))
    [] f[1] = "ins" -> i = Len(w)+1
    [] f[1] = "nt" -> f[3] \notin seen /\ LET r == P.rules[RuleAt(P.rules, f[3])] IN \E a \in 1..Len(r.alts) : BeginsSeq(P, r.alts[a], 1, w, i, seen \cup {f[3]})
    [] f[1] = "grp" -> \E a \in 1..Len(f[2]) : BeginsSeq(P, f[2][a], 1, w, i, seen)
    [] f[1] = "opt" -> i = Len(w)+1 \/ Begins(P, f[2], w, i, seen)
    [] f[1] = "plus" -> BeginsMany(P, f[2], <<>>, w, i, seen)
    [] f[1] = "star" -> i = Len(w)+1 \/ BeginsMany(P, f[2], <<>>, w, i, seen)
    [] f[1] = "plus2" -> BeginsMany(P, f[2], <<f[3]>>, w, i, seen)
    [] f[1] = "star2" -> i = Len(w)+1 \/ BeginsMany(P, f[2], <<f[3]>>, w, i, seen)
\* The index of the offending character, Len(w)+1 for the end.
WrongAt(G, w) == LET P == [rules |-> G, empties |-> Empties(G, {})]
                     ok(n) == Begins(P, <<"nt", HatMark, G[1].name>>, SubSeq(w, 1, n), 1, {})
                 IN CHOOSE n \in 1..(Len(w)+1) : ok(n-1) /\ (n = Len(w)+1 \/ ~ok(n))
LineOf(w, n) == 1 + Cardinality({k \in 1..(n-1) : w[k] = 10})
ColOf(w, n) == n - (IF \E k \in 1..(n-1) : w[k] = 10 THEN CHOOSE k \in 1..(n-1) : w[k] = 10 /\ \A x \in (k+1)..(n-1) : w[x] # 10 ELSE 0)

-----------------------------------------------------------------------------
(* The document of a derivation, as events.  An attribute goes to the       *)
(* element around it; texts next to each other are one text.                *)
Enc(n) == IF n < 128 THEN <<n>>
          ELSE IF n < 2048 THEN <<192 + (n \div 64), 128 + (n % 64)>>
          ELSE IF n < 65536 THEN <<224 + (n \div 4096), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
          ELSE <<240 + (n \div 262144), 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>
RECURSIVE Bytes(_)
Bytes(w) == IF w = <<>> THEN <<>> ELSE Enc(w[1]) \o Bytes(Tail(w))
RECURSIVE Kids(_, _)
RECURSIVE Element(_)
Kids(items, ev) ==
  IF items = <<>> THEN ev
  ELSE LET x == items[1] IN
       IF x[1] = "T" THEN (IF x[2] = <<>> THEN Kids(Tail(items), ev)
                           ELSE IF ev # <<>> /\ ev[Len(ev)][1] = "T" THEN Kids(Tail(items), [ev EXCEPT ![Len(ev)] = <<"T", ev[Len(ev)][2] \o Bytes(x[2])>>])
                           ELSE Kids(Tail(items), Append(ev, <<"T", Bytes(x[2])>>)))
       ELSE IF x[1] = "E" THEN Kids(Tail(items), ev \o Element(x))
       ELSE Kids(Tail(items), ev)
AttrsOf(items) == SelectSeq(items, LAMBDA x : x[1] = "A")
Element(x) == LET as == AttrsOf(x[3]) IN
  <<<<"E", x[2], <<>>, <<>>>>>> \o [k \in 1..Len(as) |-> <<"A", as[k][2], <<>>, IF as[k][3] = <<>> THEN <<>> ELSE <<<<"T", Bytes(as[k][3])>>>>, <<>>>>]
  \o Kids(x[3], <<>>) \o <<<<")">>>>
\* Two attributes with the same name on an element have no meaning.
RECURSIVE Twice(_)
Twice(items) == LET as == AttrsOf(items) IN
  \/ \E a, b \in 1..Len(as) : a < b /\ as[a][2] = as[b][2]
  \/ \E k \in 1..Len(items) : items[k][1] = "E" /\ Twice(items[k][3])

\* What parsing w with G may give: <<"unspec">>; or the possible documents and whether there is only one derivation;
\* or the line and column of what is wrong (0 when the grammar has rules that derive nothing).
Parse(G, w) ==
  LET D == Derivations(G, w) IN
  IF \E d \in D : Twice(d[1]) THEN <<"unspec">>
  ELSE IF D # {} THEN <<"docs", {Element(d[1][1]) : d \in D}, Cardinality(D) <= 1>>
  ELSE IF Placed(G) THEN LET n == WrongAt(G, w) IN <<"wrong", LineOf(w, n), ColOf(w, n)>>
  ELSE <<"wrong", 0, 0>>

-----------------------------------------------------------------------------
(* The grammar as a text.  A style is [eq, bar, sp, quote, hex]: the sign   *)
(* after a rule name, the sign between alternatives, what is written        *)
(* between all other signs, and how characters are written.                 *)
HexOf(n) == n - (n \div 16) * 16
RECURSIVE HexDigits(_)
HexDigits(n) == (IF n < 16 THEN <<>> ELSE HexDigits(n \div 16)) \o <<IF HexOf(n) < 10 THEN 48 + HexOf(n) ELSE 87 + HexOf(n)>>
RECURSIVE Join(_, _)
Join(parts, by) == IF parts = <<>> THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o by \o Join(Tail(parts), by)
RECURSIVE InQuotes(_, _)
InQuotes(w, q) == IF w = <<>> THEN <<>> ELSE (IF w[1] = q THEN <<q, q>> ELSE Enc(w[1])) \o InQuotes(Tail(w), q)
Quoted(w, y) == <<y.quote>> \o InQuotes(w, y.quote) \o <<y.quote>>
\* Characters that cannot stand in a quoted string are always written as hex.
WriteChars(w, y) == IF Len(w) = 1 /\ (y.hex \/ w[1] < 32) THEN <<35>> \o HexDigits(w[1]) ELSE Quoted(w, y)
MarkOf(m, y) == IF m = 0 THEN <<>> ELSE <<m>> \o y.sp
WritePart(p, y) ==
  CASE p[1] = "r" -> WriteChars(<<p[2]>>, y) \o y.sp \o <<45>> \o y.sp \o WriteChars(<<p[3]>>, y)
    [] p[1] = "s" -> WriteChars(p[2], y)
    [] p[1] = "c" -> (CASE p[2] = "LC" -> <<76, 67>> [] p[2] = "L" -> <<76>> [] p[2] = "M" -> <<77>> [] p[2] = "N" -> <<78>> [] p[2] = "P" -> <<80>> [] p[2] = "S" -> <<83>> [] p[2] = "Z" -> <<90>> [] p[2] = "C" -> <<67>>
                        [] p[2] = "Lu" -> <<76, 117>> [] p[2] = "Ll" -> <<76, 108>> [] p[2] = "Lt" -> <<76, 116>> [] p[2] = "Lm" -> <<76, 109>> [] p[2] = "Lo" -> <<76, 111>>
                        [] p[2] = "Mn" -> <<77, 110>> [] p[2] = "Mc" -> <<77, 99>> [] p[2] = "Me" -> <<77, 101>> [] p[2] = "Nd" -> <<78, 100>> [] p[2] = "Nl" -> <<78, 108>> [] p[2] = "No" -> <<78, 111>>
                        [] p[2] = "Pc" -> <<80, 99>> [] p[2] = "Pd" -> <<80, 100>> [] p[2] = "Ps" -> <<80, 115>> [] p[2] = "Pe" -> <<80, 101>> [] p[2] = "Pi" -> <<80, 105>> [] p[2] = "Pf" -> <<80, 102>> [] p[2] = "Po" -> <<80, 111>>
                        [] p[2] = "Sm" -> <<83, 109>> [] p[2] = "Sc" -> <<83, 99>> [] p[2] = "Sk" -> <<83, 107>> [] p[2] = "So" -> <<83, 111>>
                        [] p[2] = "Zs" -> <<90, 115>> [] p[2] = "Zl" -> <<90, 108>> [] p[2] = "Zp" -> <<90, 112>>
                        [] p[2] = "Cc" -> <<67, 99>> [] p[2] = "Cf" -> <<67, 102>> [] p[2] = "Co" -> <<67, 111>> [] p[2] = "Cn" -> <<67, 110>>)
RECURSIVE WriteTerm(_, _)
WriteAlts(alts, y) == Join([a \in 1..Len(alts) |-> Join([x \in 1..Len(alts[a]) |-> WriteTerm(alts[a][x], y)], y.sp \o <<44>> \o y.sp)], y.sp \o <<y.bar>> \o y.sp)
WriteTerm(f, y) ==
  CASE f[1] = "lit" -> MarkOf(f[2], y) \o WriteChars(f[3], y)
    [] f[1] = "set" -> MarkOf(f[2], y) \o (IF f[3] THEN <<126>> \o y.sp ELSE <<>>) \o <<91>> \o y.sp
                       \o Join([x \in 1..Len(f[4]) |-> WritePart(f[4][x], y)], y.sp \o <<y.bar>> \o y.sp) \o y.sp \o <<93>>
    [] f[1] = "nt" -> MarkOf(f[2], y) \o f[3]
    [] f[1] = "grp" -> <<40>> \o y.sp \o WriteAlts(f[2], y) \o y.sp \o <<41>>
    [] f[1] = "ins" -> <<43>> \o y.sp \o WriteChars(f[2], y)
    [] f[1] = "opt" -> WriteTerm(f[2], y) \o y.sp \o <<63>>
    [] f[1] = "plus" -> WriteTerm(f[2], y) \o y.sp \o <<43>>
    [] f[1] = "star" -> WriteTerm(f[2], y) \o y.sp \o <<42>>
    [] f[1] = "plus2" -> WriteTerm(f[2], y) \o y.sp \o <<43, 43>> \o y.sp \o WriteTerm(f[3], y)
    [] f[1] = "star2" -> WriteTerm(f[2], y) \o y.sp \o <<42, 42>> \o y.sp \o WriteTerm(f[3], y)
WriteRule(r, y) == MarkOf(r.mark, y) \o r.name \o (IF r.alias = <<>> THEN <<>> ELSE y.sp \o <<62>> \o y.sp \o r.alias) \o y.sp \o <<y.eq>> \o y.sp \o WriteAlts(r.alts, y) \o y.sp \o <<46>>
Write(G, y) == y.sp \o Join([r \in 1..Len(G) |-> WriteRule(G[r], y)], IF y.sp = <<>> THEN <<10>> ELSE y.sp) \o y.sp
=============================================================================
