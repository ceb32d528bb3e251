----------------------------- MODULE LinesTrace -----------------------------
(* Recorded listings and texts.  Records: k "doc": doc, lines, plain; or       *)
(* k "quote": text, out, nl whether a newline was asked for after the string.  *)
EXTENDS Lines, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)
TopEntity(ev) == \E i \in 1..Len(ev) : ev[i][1] = "R"
Wrong(r) ==
  IF r.k = "quote"
  THEN LET body == IF r.nl /\ r.out # <<>> /\ r.out[Len(r.out)] = 10 THEN SubSeq(r.out, 1, Len(r.out) - 1) ELSE r.out IN
       IF r.nl /\ Len(body) = Len(r.out) THEN "newline" ELSE IF IsC(body, r.text) THEN "" ELSE "quoted"
  ELSE LET L == Listing(r.doc, FALSE) IN
       IF ~IsListing(WriteListing(L), L) THEN "specification"
       ELSE IF ~IsListing(r.lines, L) /\ ~IsListing(r.lines, Listing(r.doc, TRUE)) THEN "lines"
       ELSE IF ~TopEntity(r.doc) /\ r.plain # PlainText(r.doc) THEN "plain"
       ELSE ""

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET e == Wrong(Trace[k]) IN
           IF e = "" THEN PrintT(ToString(<<"DONE", k>>)) ELSE PrintT(ToString(<<"MISMATCH", k, e>>))
=============================================================================
