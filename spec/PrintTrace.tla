----------------------------- MODULE PrintTrace -----------------------------
(***************************************************************************)
(* Recorded printouts.  Record: doc, the document that was printed; s, the *)
(* text it was printed as; flags, the settings it was printed with; again, *)
(* what the printed text is printed as after it has been read back (with   *)
(* the same settings).                                                     *)
(* A printout is right when the text is a text of the language, describes  *)
(* the document that was printed, keeps what the settings promise, and is  *)
(* stable.                                                                 *)
(***************************************************************************)
EXTENDS XmqDoc, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == \E i \in 1..Len(r.flags) : r.flags[i] = f
Bytes(s) == {s[i] : i \in 1..Len(s)}

\* What cannot be written on a single line, or is not kept in a comment.
OneLine(t) == [i \in 1..Len(t) |-> IF t[i] = NL THEN SP ELSE t[i]]
Printable(r, ev) ==
  [i \in 1..Len(ev) |->
    IF ev[i][1] = "P" THEN <<"P", ev[i][2], IF Has(r, "compact") THEN OneLine(PiText(ev[i][3])) ELSE PiText(ev[i][3])>>
    ELSE IF ev[i][1] = "D" THEN <<"D", DoctypeOpen \o ev[i][2] \o <<62>>>>
    ELSE ev[i]]

RECURSIVE Join(_)
Join(L) == IF L = <<>> THEN <<>> ELSE IF Len(L) = 1 THEN L[1] ELSE L[1] \o <<NL>> \o Join(Tail(L))
\* A document that reading back does not rearrange: texts merged, not only quote characters (these
\* become entities), a single declaration per element.
RECURSIVE NoQuotes(_)
NoQuotes(ev) == \A j \in 1..Len(ev) :
  /\ ev[j][1] = "T" => ~(ev[j][2] # <<>> /\ \A i \in 1..Len(ev[j][2]) : ev[j][2][i] = QUO)
  /\ ev[j][1] = "A" => NoQuotes(ev[j][4])
Settled(r) == LET ev == r.doc IN
               /\ MergeTexts(ev, 1, <<>>) = ev
               /\ NoQuotes(ev)
               /\ \A j \in 1..Len(ev) : ev[j][1] = "P" => PlainPi(PiText(ev[j][3]))
               /\ \A j \in 1..Len(ev) : ev[j][1] = "C" => PlainComment(ev[j][2]) /\ (Has(r, "compact") => SameNode(<<"C", Join(CommentLines(ev[j][2]))>>, ev[j], FALSE))
               /\ \A j \in 1..Len(ev)-1 : ~(IsNs(ev[j]) /\ IsNs(ev[j+1]))

\* The bytes of the text that a token contributes verbatim to a value.
ValueBytes(s, tok) ==
  LET t == SubSeq(s, tok.a, tok.b - 1) IN
  IF tok.t \in {"element_value_text", "attr_value_text"} THEN Bytes(t)
  ELSE IF tok.t \in {"quote", "element_value_quote", "element_value_compound_quote", "attr_value_quote", "attr_value_compound_quote"}
  THEN Bytes(QuoteText(t, PosOf(s, tok.a)[2]))
  ELSE {}

\* Printouts whose content is different, or that break the promise of a setting: the first reason.
Verdict(r) ==
  LET l == LexRun(r.s)
      p == ParseWith(r.s, <<>>, ~Has(r, "nomerge"))
  IN
  IF ~p.ok THEN "not-xmq"
  ELSE IF p.unspec THEN "undefined"
  ELSE IF ~SameDocument(p.ev, Printable(r, r.doc), Has(r, "compact")) THEN "different"
  ELSE IF Has(r, "compact") /\ NL \in Bytes(SubSeq(r.s, 1, Len(r.s)-1)) THEN "not-one-line"
  ELSE IF Has(r, "e7") /\ (\E i \in 1..Len(l.toks) : \E c \in ValueBytes(r.s, l.toks[i]) : c > 126) THEN "not-7bit"
  ELSE IF Has(r, "et") /\ (\E i \in 1..Len(l.toks) : TAB \in ValueBytes(r.s, l.toks[i])) THEN "tab"
  ELSE IF Has(r, "enl") /\ (\E i \in 1..Len(l.toks) : NL \in ValueBytes(r.s, l.toks[i])) THEN "newline"
  ELSE IF r.again # r.s /\ Settled(r) THEN "unstable"
  ELSE "ok"

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET v == Verdict(Trace[k]) IN
           IF v = "ok" THEN PrintT(ToString(<<"DONE", k>>))
           ELSE PrintT(ToString(<<"MISMATCH", k, v>>))
=============================================================================
