------------------------------- MODULE Detect -------------------------------
(* Which content type a buffer holds, judged from its first characters.       *)
EXTENDS Integers, Sequences
DByte(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
DWs == {32, 10, 9, 13}
RECURSIVE DSkip(_, _)
DSkip(s, i) == IF DByte(s, i) \in DWs THEN DSkip(s, i+1) ELSE i
DLower(c) == IF c \in 65..90 THEN c + 32 ELSE c
DAlnum == (48..57) \cup (65..90) \cup (97..122)
\* Does the word w (lower case) stand at i, ignoring case?
DMatch(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : DLower(s[i+k-1]) = w[k]
DWord(s, i, w) == LET j == DSkip(s, i) IN
  DMatch(s, j, w) /\ DByte(s, j + Len(w)) \notin DAlnum
DWordEnd(s, i, w) == DSkip(s, i) + Len(w)
DHtml    == <<104,116,109,108>>
DDoctype == <<60,33,100,111,99,116,121,112,101>>
DXmlDecl == <<60,63,120,109,108>>
DComment == <<60,33,45,45>>
DTrue    == <<116,114,117,101>>
DFalse   == <<102,97,108,115,101>>
DNull    == <<110,117,108,108>>
DIs(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i+Len(w)-1) = w
\* After a leading comment, 0 if the comment is not closed.
RECURSIVE DCommentEnd(_, _)
DCommentEnd(s, i) == IF i + 2 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i+2) = <<45,45,62>> THEN i+3
                     ELSE DCommentEnd(s, i+1)
\* Where the first markup after leading comments and blanks is, 0 when there is none.
RECURSIVE DProlog(_, _)
DProlog(s, i) ==
  IF ~DIs(s, i, DComment) THEN IF i > Len(s) THEN 0 ELSE i
  ELSE LET e == DCommentEnd(s, i+4) IN IF e = 0 THEN 0 ELSE DProlog(s, DSkip(s, e))
DMarkup(s, i) ==
  IF DByte(s, i) = 60 /\ DWord(s, i+1, DHtml) THEN "html"
  ELSE IF DWord(s, i, DDoctype) /\ DWord(s, DWordEnd(s, i, DDoctype)+1, DHtml) THEN "html"
  ELSE "xml"
DetectType(s) ==
  LET i == DSkip(s, 1)  c == DByte(s, i)
      Rest(w) == DIs(s, i, w) /\ DSkip(s, i + Len(w)) > Len(s)
  IN
  IF i > Len(s) THEN "xmq"
  ELSE IF c = 60
  THEN IF DIs(s, i, DXmlDecl) THEN "xml"
       ELSE LET m == DProlog(s, i) IN IF m = 0 THEN "xml" ELSE DMarkup(s, m)
  ELSE IF c \in {123, 34, 91} \cup (48..57) THEN "json"
  ELSE IF c = 45 /\ DByte(s, i+1) \in 48..57 THEN "json"
  ELSE IF Rest(DTrue) \/ Rest(DFalse) \/ Rest(DNull) THEN "json"
  ELSE "xmq"

-----------------------------------------------------------------------------
(* Loading with an expected type: what the text is read as, or "no" when it   *)
(* is refused.  Html may be a fragment that looks like xml, htmq is xmq.      *)
Bom == <<239, 187, 191>>
WithoutBom(s) == IF Len(s) > 3 /\ SubSeq(s, 1, 3) = Bom THEN SubSeq(s, 4, Len(s)) ELSE s
Utf16(s) == Len(s) > 2 /\ SubSeq(s, 1, 2) \in {<<255, 254>>, <<254, 255>>}
ReadAs(s, want) ==
  LET d == DetectType(WithoutBom(s)) IN
  IF Utf16(s) THEN "no"
  ELSE IF want = "detect" \/ want = d THEN d
  ELSE IF want = "html" /\ d = "xml" THEN "html"
  ELSE IF want = "htmq" /\ d = "xmq" THEN "xmq"
  ELSE "no"
=============================================================================
