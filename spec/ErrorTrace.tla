----------------------------- MODULE ErrorTrace -----------------------------
(* Recorded rejections. kind "xmq": s was rejected with the message msg, which must be *)
(* the one of the specification. kind "json": the message names a place in s, with the *)
(* character and the line that are there. kind "doctype": the value of a doctype that  *)
(* cannot be one was found while building the document.                                *)
EXTENDS XmqError, Detect, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)
Src == <<83, 82, 67>>
JsonWhy == {
  <<113,117,111,116,101,32,105,115,32,110,111,116,32,99,108,111,115,101,100>>,                                  \* quote is not closed
  <<117,110,101,120,112,101,99,116,101,100,32,99,108,111,115,105,110,103,32,98,114,97,99,101>>,               \* unexpected closing brace
  <<105,110,118,97,108,105,100,32,106,115,111,110,32,101,115,99,97,112,101>> }                               \* invalid json escape
JsonChar == <<117,110,101,120,112,101,99,116,101,100,32,106,115,111,110,32,99,104,97,114,97,99,116,101,114>>  \* unexpected json character
JsonAt(s, i) ==
  {Place(Src, s, i) \o ErrorWord \o y \o Excerpt(s, i) : y \in JsonWhy}
  \cup (IF i <= Len(s) THEN {Place(Src, s, i) \o ErrorWord \o JsonChar \o TheChar(s, i) \o Excerpt(s, i)}
        ELSE {Place(Src, s, i) \o ErrorWord \o JsonChar \o x : x \in {<<>>, <<32,34,34,32,85,43,48>>}})   \* "" U+0 at the end

Verdict(r) ==
  IF r.kind = "xmq"
  THEN IF DetectType(r.s) # "xmq" THEN "ok"
       ELSE LET m == LexRun(r.s).m IN
            IF m.pc # "error" THEN "accepted" ELSE IF Message(Src, r.s, m) = r.msg THEN "ok" ELSE "message"
  ELSE IF r.kind = "doctype" THEN IF \E i \in 1..Len(r.s)+1 : r.msg = ErrorAt(Src, r.s, ErrDoctype, i) THEN "ok" ELSE "message"
  ELSE IF \E i \in {j \in 1..Len(r.s)+1 : j > Len(r.s) \/ r.s[j] \notin 128..191} : r.msg \in JsonAt(r.s, i) THEN "ok" ELSE "message"

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET v == Verdict(Trace[k]) IN
           IF v = "ok" THEN PrintT(ToString(<<"DONE", k>>))
           ELSE PrintT(ToString(<<"MISMATCH", k, v>>))
=============================================================================
