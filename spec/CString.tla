------------------------------ MODULE CString ------------------------------
(***************************************************************************)
(* Texts as C strings.                                                     *)
(* A C string is written on one line between double quotes.  ReadC is the  *)
(* C reading of it: simple escapes, one to three octal digits, or \x with  *)
(* all the hex digits that follow it.                                      *)
(*                                                                         *)
(* The listing of a document has a line path="text" for every attribute,   *)
(* every text and every element with nothing inside, in document order.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

cDQ == 34   cBS == 92   cNL == 10
\* The simple escapes: the character after the backslash, and what it means.
Simple == [c \in {110, 97, 98, 116, 118, 102, 114, 34, 92, 39, 63} |->
  CASE c = 110 -> 10 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] OTHER -> c]
OctDigit(c) == c \in 48..55
HexDigit(c) == c \in 48..57 \cup 65..70 \cup 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

\* How many digits from i, at most m.
RECURSIVE Run(_, _, _, _)
Run(s, i, m, hex) == IF m = 0 \/ i > Len(s) THEN 0 ELSE IF (IF hex THEN HexDigit(s[i]) ELSE OctDigit(s[i])) THEN 1 + Run(s, i+1, m-1, hex) ELSE 0
RECURSIVE Val(_, _, _, _)
Val(s, i, n, base) == IF n = 0 THEN 0 ELSE Val(s, i, n-1, base) * base + HexVal(s[i+n-1])

\* Read from i, after the opening quote, to the closing quote.  end is the place after the
\* closing quote, 0 without one.  odd: an escape that C does not define, or that is no text.
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(s, i, w, odd) ==
  IF i > Len(s) THEN [end |-> 0, text |-> w, odd |-> odd]
  ELSE IF s[i] = cDQ THEN [end |-> i+1, text |-> w, odd |-> odd]
  ELSE IF s[i] # cBS THEN ReadFrom(s, i+1, Append(w, s[i]), odd)
  ELSE IF i = Len(s) THEN [end |-> 0, text |-> w, odd |-> odd]
  ELSE LET c == s[i+1] IN
       IF c \in DOMAIN Simple THEN ReadFrom(s, i+2, Append(w, Simple[c]), odd)
       ELSE IF OctDigit(c)
       THEN LET n == Run(s, i+1, 3, FALSE)  v == Val(s, i+1, n, 8) IN ReadFrom(s, i+1+n, Append(w, v % 256), odd \/ v = 0 \/ v > 127)
       ELSE IF c = 120 /\ Run(s, i+2, 8, TRUE) > 0
       THEN LET n == Run(s, i+2, 8, TRUE)  v == Val(s, i+2, IF n > 4 THEN 4 ELSE n, 16) IN ReadFrom(s, i+2+n, Append(w, v % 256), odd \/ n > 2 \/ v = 0 \/ v > 127)
       ELSE ReadFrom(s, i+2, w, TRUE)
ReadC(s, i) == IF i <= Len(s) /\ s[i] = cDQ THEN ReadFrom(s, i+1, <<>>, FALSE) ELSE [end |-> 0, text |-> <<>>, odd |-> FALSE]

\* Is s, all of it, a C string on one line for the text t.
IsC(s, t) == LET r == ReadC(s, 1) IN r.end = Len(s) + 1 /\ r.text = t /\ ~r.odd /\ \A i \in 1..Len(s) : s[i] \notin 0..31 \cup {127}

\* One way to write a text.
Octal(c) == <<cBS, 48 + (c \div 64), 48 + ((c \div 8) % 8), 48 + (c % 8)>>
WriteChar(c) ==
  IF c \in {cDQ, cBS} THEN <<cBS, c>>
  ELSE IF c \in 7..13 THEN <<cBS, CHOOSE x \in DOMAIN Simple : Simple[x] = c>>
  ELSE IF c < 32 \/ c = 127 THEN Octal(c) ELSE <<c>>
RECURSIVE WriteChars(_)
WriteChars(t) == IF t = <<>> THEN <<>> ELSE WriteChar(t[1]) \o WriteChars(Tail(t))
WriteC(t) == <<cDQ>> \o WriteChars(t) \o <<cDQ>>

\* What unquoting a text gives: <<"text", t>>, <<"invalid">>, or <<"unspec">> for what the
\* rules leave open: odd escapes, and anything but blanks after the string.
cBlank(c) == c \in {32, 9, 10, 13}
RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ cBlank(s[i]) THEN SkipBlank(s, i+1) ELSE i
Unquoted(s) ==
  LET i == SkipBlank(s, 1)  r == ReadC(s, i) IN
  IF r.end = 0 THEN <<"invalid">>
  ELSE IF r.odd \/ SkipBlank(s, r.end) <= Len(s) THEN <<"unspec">>
  ELSE <<"text", r.text>>

=============================================================================
