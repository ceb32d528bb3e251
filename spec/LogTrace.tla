----------------------------- MODULE LogTrace -----------------------------
(* Recorded log lines.  Record: k "line": call, s; "human": call, s;          *)
(* "quote": t a text, s the quote made of it; "doc": doc, s its line;         *)
(* "text": s is a line of a log.                                               *)
EXTENDS Log, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)
Key == <<107>>
OneLinePi(t) == [i \in 1..Len(t) |-> IF t[i] = NL THEN SP ELSE t[i]]
AsPrinted(ev) == [i \in 1..Len(ev) |-> IF ev[i][1] = "P" THEN <<"P", ev[i][2], OneLinePi(PiText(ev[i][3]))>>
                                        ELSE IF ev[i][1] = "D" THEN <<"D", DoctypeOpen \o ev[i][2] \o <<62>>>> ELSE ev[i]]
Verdict(r) ==
  CASE r.k = "line" -> Says(r.s, LineDoc(r.call))
    [] r.k = "human" -> IF r.s \in Human(r.call) THEN "ok" ELSE "human"
    [] r.k = "quote" -> Says(Key \o <<61>> \o r.s, Element(Key, Filled(r.t)))
    [] r.k = "text" -> LET p == ParseWith(r.s, <<>>, TRUE) IN IF p.ok /\ SingleLine(r.s) THEN "ok" ELSE "not-xmq"
    [] r.k = "doc" -> IF r.doc = <<>> THEN (IF r.s = <<>> THEN "ok" ELSE "different") ELSE Says(r.s, AsPrinted(r.doc))

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET v == Verdict(Trace[k]) IN
           IF v = "ok" THEN PrintT(ToString(<<"DONE", k>>)) ELSE PrintT(ToString(<<"MISMATCH", k, v>>))
=============================================================================
