------------------------------ MODULE XmqText ------------------------------
(***************************************************************************)
(* What the text between quotes and inside comments means: incidental      *)
(* indentation, trailing whitespace and blank first/last lines of a        *)
(* multi line text belong to the layout and not to the content.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL TNL == 10  LOCAL TTAB == 9  LOCAL TCR == 13  LOCAL TSP == 32
LOCAL TWs == {32, 10, 9, 13}
LOCAL TBlank == {32, 9}

TMin(a, b) == IF a <= b THEN a ELSE b
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Rep(c, n-1)

\* Lines: a line ends with \n, \r\n or \r.
\* Sequence of [a, b, e, nl]: first byte, byte after the text, byte after the line end, has a line end.
RECURSIVE EolAt(_, _)
EolAt(s, i) == IF i > Len(s) \/ s[i] \in {TNL, TCR} THEN i ELSE EolAt(s, i+1)
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET b == EolAt(s, i)
           e == IF b > Len(s) THEN b
                ELSE IF s[b] = TCR /\ b < Len(s) /\ s[b+1] = TNL THEN b+2 ELSE b+1
       IN <<[a |-> i, b |-> b, e |-> e, nl |-> b <= Len(s)]>> \o LinesFrom(s, e)

\* Leading and trailing runs of whitespace.
RECURSIVE LeadEnd(_, _)
LeadEnd(s, i) == IF i <= Len(s) /\ s[i] \in TWs THEN LeadEnd(s, i+1) ELSE i
RECURSIVE TrailStart(_, _)
TrailStart(s, i) == IF i >= 1 /\ s[i] \in TWs THEN TrailStart(s, i-1) ELSE i+1
CountNl(s, a, b) == Len(SelectSeq(SubSeq(s, a, b), LAMBDA c : c = TNL))
RECURSIVE LastNl(_, _)
LastNl(s, i) == IF i < 1 \/ s[i] = TNL THEN i ELSE LastNl(s, i-1)

\* Width of the indentation of a line, a tab counts as eight.
RECURSIVE IndentW(_, _, _)
IndentW(s, i, b) == IF i < b /\ s[i] \in TBlank THEN (IF s[i] = TTAB THEN 8 ELSE 1) + IndentW(s, i+1, b) ELSE 0
\* One past the last character of the line that is not blank, the first if it is all blank.
RECURSIVE TextEnd(_, _, _)
TextEnd(s, a, b) == IF b > a /\ s[b-1] \in TBlank THEN TextEnd(s, a, b-1) ELSE b

\* Remove n columns of indentation from the line that starts at i. A tab that straddles is removed.
RECURSIVE Dedent(_, _, _, _)
Dedent(s, i, n, e) == IF n <= 0 \/ i >= e THEN i
                   ELSE IF s[i] = TTAB THEN (IF n >= 8 THEN Dedent(s, i+1, n-8, e) ELSE i+1)
                   ELSE Dedent(s, i+1, IF s[i] = TSP THEN n-1 ELSE n, e)

RECURSIVE MinIndent(_, _, _)
MinIndent(s, L, m) ==
  IF L = <<>> THEN m
  ELSE LET l == Head(L) IN
       MinIndent(s, Tail(L), IF TextEnd(s, l.a, l.b) = l.a THEN m ELSE TMin(m, IndentW(s, l.a, l.b)))

RECURSIVE EmitLines(_, _, _, _)
EmitLines(s, L, inc, isFirst) ==   \* isFirst: the line that follows the opening quote, not dedented
  IF L = <<>> THEN <<>>
  ELSE LET l == Head(L)
           te == TextEnd(s, l.a, l.b)
           from == IF isFirst THEN l.a ELSE Dedent(s, l.a, inc, l.e)
           body == IF l.nl THEN SubSeq(s, from, te - 1) \o <<TNL>> ELSE SubSeq(s, from, l.b - 1)
       IN body \o EmitLines(s, Tail(L), inc, FALSE)

\* The text of a quote whose first character stands indent columns into its line. With fill the first line
\* keeps the indentation that it has beyond the incidental one.
TrimFill(indent, fill, s) ==
  IF \A i \in 1..Len(s) : s[i] \notin {TNL, TCR} THEN s
  ELSE
  LET ts     == TrailStart(s, Len(s))
      tnl    == CountNl(s, ts, Len(s))
      t      == IF tnl > 0 THEN SubSeq(s, 1, ts - 1) ELSE s
      append == IF tnl > 0 THEN tnl - 1 ELSE 0
      le     == LeadEnd(t, 1)
      lnl    == CountNl(t, 1, le - 1)
      ignore == lnl > 0
      u      == IF ignore THEN SubSeq(t, LastNl(t, le - 1) + 1, Len(t)) ELSE t
      L      == LinesFrom(u, 1)
      inc    == IF ignore THEN MinIndent(u, L, 1000000) ELSE MinIndent(u, Tail(L), indent)
  IN IF t = <<>> THEN Rep(TNL, append)
     ELSE (IF ignore THEN Rep(TNL, lnl - 1) ELSE IF fill THEN Rep(TSP, indent - inc) ELSE <<>>)
          \o EmitLines(u, L, inc, ~ignore) \o Rep(TNL, append)

TrimText(indent, s) == TrimFill(indent, TRUE, s)

\* A text found in xml: the blanks at its ends go, the first line is taken to be indented as the second.
RECURSIVE StripSpL(_)
StripSpL(s) == IF s # <<>> /\ s[1] = TSP THEN StripSpL(Tail(s)) ELSE s
RECURSIVE StripSpR(_)
StripSpR(s) == IF s # <<>> /\ s[Len(s)] = TSP THEN StripSpR(SubSeq(s, 1, Len(s)-1)) ELSE s
XmlTrimText(t) ==
  LET s == StripSpR(StripSpL(t))
      L == LinesFrom(s, 1)
      indent == IF Len(L) >= 2 THEN IndentW(s, L[2].a, L[2].b) ELSE 0
  IN TrimFill(indent, FALSE, s)

RECURSIVE QRun(_, _, _)
QRun(s, i, c) == IF i <= Len(s) /\ s[i] = c THEN QRun(s, i+1, c) ELSE i

\* A quote token, quotes included, at the given column (from 1).
QuoteText(s, col) ==
  IF Len(s) = 2 THEN <<>>
  ELSE LET n == QRun(s, 1, 39) - 1 IN TrimText(col - 1 + n, SubSeq(s, n+1, Len(s)-n))

RECURSIVE DropTrailSp(_)
DropTrailSp(s) == IF s # <<>> /\ s[Len(s)] = TSP THEN DropTrailSp(SubSeq(s, 1, Len(s)-1)) ELSE s

\* A block comment from its opening star to its closing star, first star at the given column.
StarText(s, col) ==
  LET a == IF Len(s) > 2 /\ s[2] = TSP THEN 3 ELSE 2
      b == IF s[Len(s)-1] = TSP /\ Len(s) - 1 >= a THEN Len(s) - 2 ELSE Len(s) - 1
  IN TrimText(col - 1 + (a - 1), SubSeq(s, a, b))

\* A comment token at the given column.
CommentText(s, col) ==
  LET e == QRun(s, 1, 47) IN
  IF e > Len(s) THEN SubSeq(s, 3, Len(s))
  ELSE IF s[e] # 42 THEN TrimText(col - 1, DropTrailSp(SubSeq(s, IF s[e] = TSP THEN e+1 ELSE e, Len(s))))
  ELSE StarText(SubSeq(s, e, Len(s) - (e-1)), col + (e - 1))

RECURSIVE LastNonSlash(_, _)
LastNonSlash(s, i) == IF i >= 1 /\ s[i] = 47 THEN LastNonSlash(s, i-1) ELSE i

\* A continuation, *text*///, at the given column.
ContinuationText(s, col) ==
  LET z == LastNonSlash(s, Len(s)) IN StarText(SubSeq(s, 1, z), col + (Len(s) - z))
=============================================================================
