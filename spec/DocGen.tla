------------------------------- MODULE DocGen -------------------------------
(* Enumerates documents: a prefix, then up to max chunks of events from a     *)
(* menu, then the ends of the elements that are still open.  A hole (the      *)
(* string <<0>>) in the prefix or the ending is instead filled with every     *)
(* string of up to max chunks.                                                *)
EXTENDS XmqDoc
CONSTANT Docs      \* sequence of [pre, menu, max]
CONSTANT Holes     \* sequence of [docs (event sequences with a hole), chunks, max]
VARIABLES w, d, s, n

RECURSIVE Depth(_, _, _)
Depth(ev, k, x) == IF k > Len(ev) THEN x
                   ELSE Depth(ev, k+1, IF ev[k][1] = "E" THEN x+1 ELSE IF ev[k][1] = ")" THEN x-1 ELSE x)
Close(ev) == ev \o [k \in 1..Depth(ev, 1, 0) |-> <<")">>]

InHead(ev) == ev # <<>> /\ ev[Len(ev)][1] \in {"E", "N", "A"}
RECURSIVE HeadStart(_, _)
HeadStart(ev, k) == IF ev[k][1] = "E" THEN k ELSE HeadStart(ev, k-1)
\* Can the event follow: attributes and namespaces belong to the element just started, once.
Fits(ev, e) ==
  CASE e[1] = ")" -> Depth(ev, 1, 0) > 0
    [] e[1] = "A" -> InHead(ev) /\ \A k \in HeadStart(ev, Len(ev))..Len(ev) : ~(ev[k][1] = "A" /\ ev[k][2] = e[2] /\ ev[k][3] = e[3])
    [] e[1] = "N" -> InHead(ev) /\ ev[Len(ev)][1] # "A"
                     /\ \A k \in HeadStart(ev, Len(ev))..Len(ev) : ~(ev[k][1] = "N" /\ ev[k][2] = e[2])
    [] e[1] = "D" -> ev = <<>>
    [] OTHER -> TRUE

RECURSIVE Fill(_, _)
Fill(ev, str) ==
  [k \in 1..Len(ev) |->
    LET e == ev[k]  f(x) == IF x = <<0>> THEN str ELSE x IN
    CASE e[1] \in {"T", "C", "R", "D"} -> <<e[1], f(e[2])>>
      [] e[1] = "P" -> <<"P", e[2], f(e[3])>>
      [] e[1] = "N" -> <<"N", e[2], <<f(e[3][1])>>>>
      [] e[1] = "A" -> <<"A", e[2], e[3], Fill(e[4], str), e[5]>>
      [] OTHER -> e]

Emit(ev) == PrefixesDeclared(ev) => PrintT(ToString(<<"DOC", ev>>))
NoDoc == <<>>
Init == \/ /\ w \in 1..Len(Docs) /\ d \in Docs[w].pre /\ s = <<>> /\ n = 0
        \/ /\ w \in (Len(Docs)+1)..(Len(Docs) + Len(Holes)) /\ d \in Holes[w - Len(Docs)].docs /\ s = <<>> /\ n = 0
Next ==
  IF w <= Len(Docs)
  THEN /\ n < Docs[w].max /\ n' = n + 1 /\ UNCHANGED <<w, s>>
       /\ \E e \in Docs[w].menu : Fits(d, e) /\ d' = Append(d, e)
       /\ Emit(Resolved(Close(d'), 1, <<>>))
  ELSE /\ n < Holes[w - Len(Docs)].max /\ n' = n + 1 /\ UNCHANGED <<w, d>>
       /\ \E c \in Holes[w - Len(Docs)].chunks : s' = s \o c
       /\ Emit(Resolved(Fill(d, s'), 1, <<>>))
=============================================================================
