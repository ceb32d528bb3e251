---------------------------- MODULE DetectTrace ----------------------------
(* Recorded: a document was written as fmt, giving the text s, whose type was judged to *)
(* be got.  What is written is recognised as what it is; only an xmq element that looks *)
(* like a json literal is taken for json, and xml with an html root for html.           *)
EXTENDS Detect, TLC, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)
Verdict(r) ==
  LET d == DetectType(r.s) IN
  IF r.got # d THEN "detected"
  ELSE IF d = r.fmt THEN "ok"
  ELSE IF r.fmt = "xmq" /\ r.literal THEN "ok"
  ELSE IF r.fmt = "xml" /\ r.html /\ d = "html" THEN "ok"
  ELSE "type"
Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET v == Verdict(Trace[k]) IN
           IF v = "ok" THEN PrintT(ToString(<<"DONE", k>>))
           ELSE PrintT(ToString(<<"MISMATCH", k, v, DetectType(Trace[k].s)>>))
=============================================================================
