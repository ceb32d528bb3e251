------------------------------- MODULE Lookup -------------------------------
(***************************************************************************)
(* Looking things up in a document: the nodes of a path, in the order of   *)
(* the document, each shown to a callback that may stop the walk; and the  *)
(* name, the content and the number that a node stands for.                *)
(* Numbers are kept as decimal digits (the integers of TLC are too small). *)
(***************************************************************************)
EXTENDS XmqPath

\* The walk: what is left to be shown, and what has been shown.
Sorted(S) == LET RECURSIVE f(_)
                 f(R) == IF R = {} THEN <<>> ELSE LET m == CHOOSE i \in R : \A j \in R : i <= j IN <<m>> \o f(R \ {m}) IN f(S)
WalkInit(S) == [left |-> Sorted(S), shown |-> <<>>, stopped |-> FALSE]
WalkNext(x, stop) == [left |-> Tail(x.left), shown |-> Append(x.shown, x.left[1]), stopped |-> Len(x.shown) + 1 = stop]
RECURSIVE WalkRun(_, _)
WalkRun(x, stop) == IF x.stopped \/ x.left = <<>> THEN x ELSE WalkRun(WalkNext(x, stop), stop)
Walk(S, stop) == WalkRun(WalkInit(S), stop).shown

\* How many nodes start before the node does: tells apart nodes that look the same.
PlaceOf(ev, i) == IF i = 0 THEN 0 ELSE 1 + Cardinality({j \in 1..i-1 : Inner(ev[j])})

TheName(ev, i) ==
  IF i = 0 THEN <<>>
  ELSE CASE ev[i][1] = "T" -> <<<<116,101,120,116>>>>
         [] ev[i][1] = "C" -> <<<<99,111,109,109,101,110,116>>>>
         [] OTHER -> <<ev[i][2]>>

\* The content: the text itself, or the first text in an element or an attribute, or none.
TextsIn(ev, par, i) == {j \in ChildrenOf(ev, par, i) : ev[j][1] = "T"}
ContentOf(ev, par, i) ==
  IF i # 0 /\ ev[i][1] \in {"T", "C"} THEN <<ev[i][2]>>
  ELSE IF i # 0 /\ ev[i][1] = "P" THEN <<ev[i][3]>>
  ELSE IF i # 0 /\ ev[i][1] = "A" THEN IF ev[i][4] = <<>> THEN <<>> ELSE <<ev[i][4][1][2]>>
  ELSE LET S == TextsIn(ev, par, i) IN IF S = {} THEN <<>> ELSE <<ev[CHOOSE j \in S : \A m \in S : j <= m][2]>>
\* Content in several pieces, or with an entity whose text is not known, is left open.
PlainContent(ev, par, i) ==
  IF i # 0 /\ ev[i][1] \in {"T", "C", "P"} THEN TRUE
  ELSE IF i # 0 /\ ev[i][1] = "A" THEN Len(ev[i][4]) <= 1 /\ \A j \in 1..Len(ev[i][4]) : ev[i][4][j][1] = "T"
  ELSE Cardinality(TextsIn(ev, par, i)) <= 1 /\ \A j \in 1..Len(ev) : par[j] = i => ev[j][1] # "R"
ContentIs(x, y) == x = y \/ (x = <<>> /\ y = <<<<>>>>) \/ (x = <<<<>>>> /\ y = <<>>)

(* Numbers *)
Digit(ch) == ch \in 48..57
DigitIn(base, ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 97..102 THEN ch - 87 ELSE IF ch \in 65..70 THEN ch - 55 ELSE 99
IsBlank(ch) == ch \in {9, 10, 11, 12, 13, 32}
RECURSIVE SkipBlanks(_, _)
SkipBlanks(x, q) == IF q <= Len(x) /\ IsBlank(x[q]) THEN SkipBlanks(x, q+1) ELSE q
RECURSIVE SpanDigits(_, _, _)
SpanDigits(x, q, base) == IF q <= Len(x) /\ DigitIn(base, x[q]) < base THEN SpanDigits(x, q+1, base) ELSE q
RECURSIVE NoZeros(_)
NoZeros(x) == IF Len(x) > 1 /\ x[1] = 0 THEN NoZeros(Tail(x)) ELSE x
\* x * b + a on decimal digits, x without leading zeros
MulAdd(x, b, a) ==
  LET RECURSIVE f(_, _, _)
      f(q, carry, out) == IF q = 0 /\ carry = 0 THEN out
                          ELSE LET v == carry + (IF q = 0 THEN 0 ELSE x[q] * b) IN f(IF q = 0 THEN 0 ELSE q-1, v \div 10, <<v % 10>> \o out)
  IN NoZeros(<<0>> \o f(Len(x), a, <<>>))
RECURSIVE Horner(_, _, _, _)
Horner(x, q, base, acc) == IF q > Len(x) THEN acc ELSE Horner(x, q+1, base, MulAdd(acc, base, DigitIn(base, x[q])))
InDecimal(x, base) == Horner(x, 1, base, <<0>>)

\* The integer that a text starts with: 0x hexadecimal, 0 octal, else decimal with a sign. <<negative, digits>>
Number(x) ==
  IF Len(x) >= 2 /\ x[1] = 48 /\ x[2] = 120 THEN [neg |-> FALSE, v |-> InDecimal(SubSeq(x, 3, SpanDigits(x, 3, 16)-1), 16)]
  ELSE IF x # <<>> /\ x[1] = 48 THEN [neg |-> FALSE, v |-> InDecimal(SubSeq(x, 1, SpanDigits(x, 1, 8)-1), 8)]
  ELSE LET p == SkipBlanks(x, 1)
           q == IF p <= Len(x) /\ x[p] \in {43, 45} THEN p+1 ELSE p
           v == InDecimal(SubSeq(x, q, SpanDigits(x, q, 10)-1), 10)
       IN [neg |-> q > p /\ x[p] = 45 /\ v # <<0>>, v |-> v]
Shown(m) == (IF m.neg THEN <<45>> ELSE <<>>) \o [j \in 1..Len(m.v) |-> 48 + m.v[j]]
RECURSIVE AtMost(_, _, _)
AtMost(x, y, q) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE IF q > Len(x) THEN TRUE ELSE IF x[q] # y[q] THEN x[q] < y[q] ELSE AtMost(x, y, q+1)
MaxInt == <<2,1,4,7,4,8,3,6,4,7>>                    MinInt == <<2,1,4,7,4,8,3,6,4,8>>
MaxLong == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>  MinLong == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
FitsInt(m) == AtMost(m.v, IF m.neg THEN MinInt ELSE MaxInt, 1)
FitsLong(m) == AtMost(m.v, IF m.neg THEN MinLong ELSE MaxLong, 1)

\* The decimal fraction that a text starts with: <<negative, digits, exponent>>, no zeros at either end of the digits.
RECURSIVE NoEndZeros(_, _)
NoEndZeros(x, e) == IF Len(x) > 0 /\ x[Len(x)] = 0 THEN NoEndZeros(SubSeq(x, 1, Len(x)-1), e+1) ELSE [d |-> x, e |-> e]
RECURSIVE Small(_, _, _)
Small(x, q, acc) == IF q > Len(x) THEN acc ELSE Small(x, q+1, acc * 10 + (x[q] - 48))
Vals(x) == [j \in 1..Len(x) |-> x[j] - 48]
Fraction(x) ==
  LET p == SkipBlanks(x, 1)
      q == IF p <= Len(x) /\ x[p] \in {43, 45} THEN p+1 ELSE p
      a == SpanDigits(x, q, 10)
      dot == a <= Len(x) /\ x[a] = 46
      b == IF dot THEN SpanDigits(x, a+1, 10) ELSE a
      all == Vals(SubSeq(x, q, a-1)) \o (IF dot THEN Vals(SubSeq(x, a+1, b-1)) ELSE <<>>)
      f == IF b <= Len(x) /\ x[b] \in {101, 69} /\ all # <<>> THEN (IF b < Len(x) /\ x[b+1] \in {43, 45} THEN b+2 ELSE b+1) ELSE 0
      g == IF f = 0 THEN 0 ELSE SpanDigits(x, f, 10)
      ex == IF g <= f THEN 0 ELSE IF x[f-1] = 45 THEN 0 - Small(SubSeq(x, f, g-1), 1, 0) ELSE Small(SubSeq(x, f, g-1), 1, 0)
      z == NoEndZeros(NoZeros(<<0>> \o all), ex - (IF dot THEN b - a - 1 ELSE 0))
  IN IF z.d = <<>> \/ z.d = <<0>> THEN [neg |-> FALSE, d |-> <<>>, e |-> 0] ELSE [neg |-> q > p /\ x[p] = 45, d |-> NoZeros(z.d), e |-> z.e]
\* Not a decimal number but still one to the C library, or one that has no exact floating point value.
Exact(x) ==
  LET p == SkipBlanks(x, 1)
      q == IF p <= Len(x) /\ x[p] \in {43, 45} THEN p+1 ELSE p
      m == Fraction(x) IN
  /\ ~(q < Len(x) /\ x[q] = 48 /\ x[q+1] \in {120, 88})
  /\ ~(q <= Len(x) /\ x[q] \in {105, 73, 110, 78})
  /\ Len(m.d) + (IF m.e > 0 THEN m.e ELSE 0) <= 15
  /\ m.e < 0 => Len(m.d) > 0 /\ \/ m.e = -1 /\ m.d[Len(m.d)] = 5
                                \/ m.e = -2 /\ Len(m.d) > 1 /\ m.d[Len(m.d)] = 5 /\ m.d[Len(m.d)-1] \in {2, 7}

(* What the lookups give for the nodes of a path, as [int, long, double, string] and [name, content, place]. *)
FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j
GetOk(ev, par, S, got) ==
  LET x == IF S = {} THEN <<>> ELSE ContentOf(ev, par, FirstOf(S))
      t == IF x = <<>> THEN <<48>> ELSE x[1]
  IN \/ S # {} /\ ~PlainContent(ev, par, FirstOf(S))
     \/ /\ (IF S = {} THEN got.s = <<>> ELSE ContentIs(x, got.s))
        /\ FitsInt(Number(t)) => got.i = Shown(Number(t))
        /\ FitsLong(Number(t)) => got.l = Shown(Number(t))
        /\ Exact(t) => Fraction(got.d) = Fraction(t)
EachOk(ev, par, S, stop, hits, seen) ==
  LET want == Walk(S, stop) IN
  /\ hits = Cardinality(S)
  /\ Len(seen) = Len(want)
  /\ \A j \in 1..Len(want) : /\ seen[j][1] = TheName(ev, want[j])
                             /\ PlainContent(ev, par, want[j]) => ContentIs(ContentOf(ev, par, want[j]), seen[j][2])
                             /\ seen[j][3] = PlaceOf(ev, want[j])
=============================================================================
