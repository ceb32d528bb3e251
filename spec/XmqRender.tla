----------------------------- MODULE XmqRender -----------------------------
(***************************************************************************)
(* Renderings of xmq in html, in tex and for a terminal: the text, with    *)
(* the kind of every part marked.  Unrender reads a rendering back into a  *)
(* sequence of <<byte, mark>> (the mark is the class between the html tags,*)
(* the tex command, or the parameters of the terminal colour), or Broken when *)
(* it is not well formed.  MarkOf is the mark that the grammar gives a     *)
(* token.                                                                  *)
(***************************************************************************)
EXTENDS XmqTree

NoMark == <<>>
MC == <<120,109,113,67>>
MQ == <<120,109,113,81>>
ME == <<120,109,113,69>>
MNS == <<120,109,113,78,83>>
MEN == <<120,109,113,69,78>>
MEK == <<120,109,113,69,75>>
MEKV == <<120,109,113,69,75,86>>
MAK == <<120,109,113,65,75>>
MAKV == <<120,109,113,65,75,86>>
MCP == <<120,109,113,67,80>>
MNSD == <<120,109,113,78,83,68>>
MUW == <<120,109,113,85,87>>
MXSL == <<120,109,113,88,83,76>>
Broken == <<-1, NoMark>>

Has(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
\* The first (last) place from i (up to i) where w is found, 0 for none.
Places(s, i, j, w) == {p \in i..j : s[p] = w[1] /\ Has(s, p, w)}
Find(s, i, w) == LET p == Places(s, i, Len(s), w) IN IF p = {} THEN 0 ELSE CHOOSE x \in p : \A y \in p : x <= y
LastAt(s, i, w) == LET p == Places(s, 1, i, w) IN IF p = {} THEN 0 ELSE CHOOSE x \in p : \A y \in p : x >= y
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ s[i] \in (65..90) \cup (97..122) THEN WordEnd(s, i+1) ELSE i

-----------------------------------------------------------------------------
(* Html. Parts are marked by pairs of tags that nest. *)
Top1(m) == IF m = <<>> THEN NoMark ELSE m[Len(m)]
Pop(m) == SubSeq(m, 1, Len(m)-1)
HAmp == <<38,97,109,112,59>>
HLt == <<38,108,116,59>>
HGt == <<38,103,116,59>>
HQuot == <<38,113,117,111,116,59>>
HEnd == <<60,47,112,114,101,62>>
HStart == <<60,112,114,101,32>>
RECURSIVE Html(_, _, _, _)
Html(s, i, stop, m) ==
  IF i >= stop THEN IF m = <<>> THEN <<>> ELSE <<Broken>>
  ELSE IF s[i] = 60
  THEN LET close == s[i+1] = 47
           a == IF close THEN i+2 ELSE i+1
           e == WordEnd(s, a)
           w == SubSeq(s, a, e-1)
       IN IF e >= stop \/ s[e] # 62 \/ (IF close THEN w # Top1(m) ELSE Len(m) > 1) THEN <<Broken>>
          ELSE Html(s, e+1, stop, IF close THEN Pop(m) ELSE Append(m, w))
  ELSE IF s[i] = 62 THEN <<Broken>>
  ELSE IF s[i] = 38
  THEN IF Has(s, i, HAmp) THEN <<<<38, Top1(m)>>>> \o Html(s, i+5, stop, m)
       ELSE IF Has(s, i, HLt) THEN <<<<60, Top1(m)>>>> \o Html(s, i+4, stop, m)
       ELSE IF Has(s, i, HGt) THEN <<<<62, Top1(m)>>>> \o Html(s, i+4, stop, m)
       ELSE IF Has(s, i, HQuot) THEN <<<<34, Top1(m)>>>> \o Html(s, i+6, stop, m)
       ELSE <<Broken>>
  ELSE <<<<s[i], Top1(m)>>>> \o Html(s, i+1, stop, m)
UnHtml(s) ==
  LET p == Find(s, 1, HStart)
      a == IF p = 0 THEN 0 ELSE Find(s, p, <<62>>)
      e == IF a = 0 THEN 0 ELSE Find(s, a, HEnd)
  IN IF e = 0 THEN <<Broken>> ELSE Html(s, a+1, e, <<>>)

-----------------------------------------------------------------------------
(* Terminal. The marks are the colours, 0 is no colour. *)
RECURSIVE ParamEnd(_, _)
ParamEnd(s, i) == IF i <= Len(s) /\ s[i] \in (48..57) \cup {59} THEN ParamEnd(s, i+1) ELSE i
RECURSIVE Term(_, _, _)
Term(s, i, m) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = 27
  THEN LET e == ParamEnd(s, i+2) IN
       IF i = Len(s) \/ s[i+1] # 91 \/ e > Len(s) \/ s[e] # 109 THEN <<Broken>>
       ELSE LET p == SubSeq(s, i+2, e-1) IN Term(s, e+1, IF p = <<48>> THEN NoMark ELSE p)
  ELSE <<<<s[i], m>>>> \o Term(s, i+1, m)
\* The last newline ends the output.
UnTerm(s) == LET x == Term(s, 1, NoMark) IN IF x # <<>> /\ x[Len(x)][1] = NL THEN SubSeq(x, 1, Len(x)-1) ELSE x

-----------------------------------------------------------------------------
(* Tex. Every character with a meaning in tex is escaped. *)
XStart == <<92,116,101,120,116,116,116,123,92,102,108,117,115,104,108,101,102,116,92,110,111,105,110,100,101,110,116,32>>
XEnd == <<10,125,10>>
XSpace == <<92,120,109,113,73,32>>
XNl == <<92,108,105,110,101,98,114,101,97,107,10>>
XQuo == <<123,39,125>>
XBs == <<92,116,101,120,116,98,97,99,107,115,108,97,115,104,123,125>>
XHat == <<92,116,101,120,116,97,115,99,105,105,99,105,114,99,117,109,123,125>>
XTilde == <<92,116,101,120,116,97,115,99,105,105,116,105,108,100,101,123,125>>
XEsc == {38, 35, 123, 125, 95, 37, 36}   \* & # { } _ % $
RECURSIVE Tex(_, _, _, _)
Tex(s, i, stop, m) ==
  IF i >= stop THEN IF m = <<>> THEN <<>> ELSE <<Broken>>
  ELSE IF s[i] = 92
  THEN IF s[i+1] \in XEsc THEN <<<<s[i+1], Top1(m)>>>> \o Tex(s, i+2, stop, m)
       ELSE IF Has(s, i, XSpace) THEN <<<<SP, Top1(m)>>>> \o Tex(s, i + Len(XSpace), stop, m)
       ELSE IF Has(s, i, XNl) THEN <<<<NL, Top1(m)>>>> \o Tex(s, i + Len(XNl), stop, m)
       ELSE IF Has(s, i, XBs) THEN <<<<92, Top1(m)>>>> \o Tex(s, i + Len(XBs), stop, m)
       ELSE IF Has(s, i, XHat) THEN <<<<94, Top1(m)>>>> \o Tex(s, i + Len(XHat), stop, m)
       ELSE IF Has(s, i, XTilde) THEN <<<<126, Top1(m)>>>> \o Tex(s, i + Len(XTilde), stop, m)
       ELSE LET e == WordEnd(s, i+1)  w == SubSeq(s, i+1, e-1) IN
            IF w = <<>> \/ e >= stop \/ s[e] # 123 \/ Len(m) > 1 THEN <<Broken>>
            ELSE Tex(s, e+1, stop, Append(m, w))
  ELSE IF Has(s, i, XQuo) THEN <<<<QUO, Top1(m)>>>> \o Tex(s, i+3, stop, m)
  ELSE IF s[i] = 125 THEN IF m = <<>> THEN <<Broken>> ELSE Tex(s, i+1, stop, Pop(m))
  ELSE IF s[i] \in XEsc \cup {94, 126} THEN <<Broken>>
  ELSE <<<<s[i], Top1(m)>>>> \o Tex(s, i+1, stop, m)
UnTex(s) ==
  LET p == Find(s, 1, XStart)
      e == IF p = 0 THEN 0 ELSE LastAt(s, Len(s), XEnd)
  IN IF e = 0 THEN <<Broken>> ELSE Tex(s, p + Len(XStart), e, <<>>)

Unrender(fmt, s) == IF fmt = "html" THEN UnHtml(s) ELSE IF fmt = "tex" THEN UnTex(s) ELSE UnTerm(s)

-----------------------------------------------------------------------------
MarkOf(ty) ==
  CASE ty \in {"comment", "comment_continuation"} -> MC
    [] ty = "quote" -> MQ
    [] ty \in {"entity", "element_value_entity", "element_value_compound_entity", "attr_value_entity", "attr_value_compound_entity"} -> ME
    [] ty \in {"element_ns", "attr_ns"} -> MNS
    [] ty = "element_name" -> MEN
    [] ty = "element_key" -> MEK
    [] ty \in {"element_value_text", "element_value_quote", "element_value_compound_quote"} -> MEKV
    [] ty = "attr_key" -> MAK
    [] ty \in {"attr_value_text", "attr_value_quote", "attr_value_compound_quote"} -> MAKV
    [] ty \in {"cpar_left", "cpar_right"} -> MCP
    [] ty = "ns_declaration" -> MNSD
    [] OTHER -> NoMark
=============================================================================
