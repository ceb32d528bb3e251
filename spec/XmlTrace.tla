------------------------------ MODULE XmlTrace ------------------------------
(***************************************************************************)
(* Recorded conversions to and from xml.  Record: doc, the document; s, the*)
(* xml text it was printed as; ok and back, what the library reads back    *)
(* from that text (whitespace kept); after, the document after it was      *)
(* printed.                                                                *)
(***************************************************************************)
EXTENDS XmlRead, IOUtils, Json
VARIABLES k, todo
Trace == ndJsonDeserialize(IOEnv.TRACE)

View(ev) == XmlView([j \in 1..Len(ev) |-> IF ev[j][1] = "D" THEN <<"D", DoctypeOpen \o ev[j][2] \o <<62>>>> ELSE ev[j]])
Verdict(r) ==
  IF Content(XmlView(r.after)) # Content(View(r.doc)) \/ Namespaces(r.after) # Namespaces(r.doc) THEN "document-changed"
  ELSE IF ~XmlAble(r.doc) THEN "ok"
  ELSE LET x == XmlParse(r.s) IN
  IF ~x.ok THEN "not-xml"
  ELSE IF Content(x.ev) # Content(View(r.doc)) \/ Namespaces(x.ev) # Namespaces(r.doc) THEN "different"
  ELSE IF ~r.ok THEN "not-read-back"
  ELSE IF Content(r.back) # Content(View(r.doc)) \/ Namespaces(r.back) # Namespaces(r.doc) THEN "read-back-different"
  ELSE "ok"

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET v == Verdict(Trace[k]) IN
           IF v = "ok" THEN PrintT(ToString(<<"DONE", k, XmlAble(Trace[k].doc)>>))
           ELSE PrintT(ToString(<<"MISMATCH", k, v>>))
=============================================================================
