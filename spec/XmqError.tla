------------------------------ MODULE XmqError ------------------------------
(***************************************************************************)
(* What is said about a text that is rejected: the source, the line and the *)
(* column, why, the character when it is one that cannot stand there, and   *)
(* the line with a mark below the place.  A stray quote that may be the     *)
(* cause of a character out of place is warned about first.                 *)
(***************************************************************************)
EXTENDS XmqLex

WarnQuotes == <<112,101,114,104,97,112,115,32,121,111,117,32,110,101,101,100,32,109,111,114,101,32,113,117,111,116,101,115,32,116,111,32,113,117,111,116,101,32,116,104,105,115,32,113,117,111,116,101>>   \* perhaps you need more quotes to quote this quote
Why(e) ==
  CASE e = ErrQuoteNotClosed -> <<113,117,111,116,101,32,105,115,32,110,111,116,32,99,108,111,115,101,100>>   \* quote is not closed
    [] e = ErrEntityNotClosed -> <<101,110,116,105,116,121,32,105,115,32,110,111,116,32,99,108,111,115,101,100>>   \* entity is not closed
    [] e = ErrCommentNotClosed -> <<99,111,109,109,101,110,116,32,105,115,32,110,111,116,32,99,108,111,115,101,100>>   \* comment is not closed
    [] e = ErrCommentSlashes -> <<99,111,109,109,101,110,116,32,99,108,111,115,101,100,32,119,105,116,104,32,116,111,111,32,109,97,110,121,32,115,108,97,115,104,101,115>>   \* comment closed with too many slashes
    [] e = ErrBodyNotClosed -> <<98,111,100,121,32,105,115,32,110,111,116,32,99,108,111,115,101,100>>   \* body is not closed
    [] e = ErrAttrsNotClosed -> <<97,116,116,114,105,98,117,116,101,115,32,97,114,101,32,110,111,116,32,99,108,111,115,101,100>>   \* attributes are not closed
    [] e = ErrCompoundNotClosed -> <<99,111,109,112,111,117,110,100,32,105,115,32,110,111,116,32,99,108,111,115,101,100>>   \* compound is not closed
    [] e = ErrCompoundContent -> <<99,111,109,112,111,117,110,100,32,109,97,121,32,111,110,108,121,32,99,111,110,116,97,105,110,32,113,117,111,116,101,115,32,97,110,100,32,101,110,116,105,116,105,101,115>>   \* compound may only contain quotes and entities
    [] e = ErrQuoteTooMany -> <<113,117,111,116,101,32,99,108,111,115,101,100,32,119,105,116,104,32,116,111,111,32,109,97,110,121,32,113,117,111,116,101,115>>   \* quote closed with too many quotes
    [] e = ErrClosingBrace -> <<117,110,101,120,112,101,99,116,101,100,32,99,108,111,115,105,110,103,32,98,114,97,99,101>>   \* unexpected closing brace
    [] e = ErrContentAfterEq -> <<101,120,112,101,99,116,101,100,32,99,111,110,116,101,110,116,32,97,102,116,101,114,32,101,113,117,97,108,115>>   \* expected content after equals
    [] e = ErrTab -> <<105,110,118,97,108,105,100,32,116,97,98,32,99,104,97,114,97,99,116,101,114,32,102,111,117,110,100,44,32,114,101,109,101,109,98,101,114,32,116,104,97,116,32,116,97,98,32,105,115,32,110,111,116,32,97,108,108,111,119,101,100,32,97,115,32,97,32,102,105,101,108,100,32,115,101,112,97,114,97,116,111,114,44,32,116,111,32,115,116,111,114,101,32,116,97,98,32,97,115,32,99,111,110,116,101,110,116,32,105,116,32,109,117,115,116,32,98,101,32,113,117,111,116,101,100>>   \* invalid tab character found, remember that tab is not allowed as a field separator, to store tab as content it must be quoted
    [] e = ErrInvalidChar -> <<117,110,101,120,112,101,99,116,101,100,32,99,104,97,114,97,99,116,101,114>>   \* unexpected character
    [] e = ErrDoctype -> <<100,111,99,116,121,112,101,32,99,111,117,108,100,32,110,111,116,32,98,101,32,112,97,114,115,101,100>>   \* doctype could not be parsed
    [] e = ErrValueStart -> <<118,97,108,117,101,32,99,97,110,110,111,116,32,115,116,97,114,116,32,119,105,116,104,32,61,32,47,42,32,111,114,32,47,47>>   \* value cannot start with = /* or //
    [] OTHER -> <<>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE Append(Hex(n \div 16), HexDigit(n % 16))

\* The character at i: its bytes, and its code point.
CharLen(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
CodePoint(s, i) ==
  LET c == s[i]  n == CharLen(c)
      first == IF n = 1 THEN c ELSE IF n = 2 THEN c % 32 ELSE IF n = 3 THEN c % 16 ELSE c % 8
      RECURSIVE rest(_, _)
      rest(v, j) == IF j = n THEN v ELSE rest(v * 64 + (s[i+j] % 64), j+1)
  IN rest(first, 1)

RECURSIVE LineStart(_, _)
LineStart(s, i) == IF i > 1 /\ s[i-1] # NL THEN LineStart(s, i-1) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i <= Len(s) /\ s[i] # NL THEN LineEnd(s, i+1) ELSE i

Excerpt(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE <<NL>> \o SubSeq(s, LineStart(s, i), LineEnd(s, i) - 1)
       \o <<NL>> \o [j \in 1..PosOf(s, i)[2] - 1 |-> SP] \o <<94>>

Place(src, s, i) == LET p == PosOf(s, i) IN src \o <<58>> \o Dec(p[1]) \o <<58>> \o Dec(p[2]) \o <<58, 32>>
ErrorWord == <<101,114,114,111,114,58,32>>
WarnWord == <<119,97,114,110,105,110,103,58,32>>
TheChar(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE <<32, 34>> \o SubSeq(s, i, i + CharLen(s[i]) - 1) \o <<34, 32, 85, 43>> \o Hex(CodePoint(s, i))

ErrorAt(src, s, e, i) == Place(src, s, i) \o ErrorWord \o Why(e) \o (IF e = ErrInvalidChar THEN TheChar(s, i) ELSE <<>>) \o Excerpt(s, i)
WarnAt(src, s, i) == Place(src, s, i) \o WarnWord \o WarnQuotes \o Excerpt(s, i)

\* m is the final state of the machine.
Message(src, s, m) ==
  (IF m.err = ErrInvalidChar /\ m.susp > 0 THEN WarnAt(src, s, m.susp) \o <<NL>> ELSE <<>>) \o ErrorAt(src, s, m.err, m.at)
=============================================================================
