------------------------------- MODULE XsdGen -------------------------------
(* Schemas: a start, then up to max blocks of events from a menu, then the   *)
(* ends of the elements that are open; and which of the documents each       *)
(* allows.                                                                   *)
EXTENDS Xsd
CONSTANTS Sweeps      \* sequence of [pre, menu, max, docs, each (documents per schema), every]
VARIABLES w, d, n, hash, base

RECURSIVE Opened(_, _, _)
Opened(ev, q, o) == IF q > Len(ev) THEN o ELSE Opened(ev, q+1, IF ev[q][1] = "E" THEN Append(o, q) ELSE IF ev[q][1] = ")" THEN SubSeq(o, 1, Len(o)-1) ELSE o)
Depth(ev) == Len(Opened(ev, 1, <<>>))
Ends(ev) == ev \o [q \in 1..Depth(ev) |-> <<")">>]
Innermost(ev) == LET o == Opened(ev, 1, <<>>) IN ev[o[Len(o)]]
Named(e, z) == e[1] = "E" /\ e[4] = <<XsUri>> /\ e[2] \in z
Groups == {WSequence, WChoice}
\* The names that the innermost type has already.
InType(ev) == LET o == Opened(ev, 1, <<>>)  z == {q \in 1..Len(o) : Named(ev[o[q]], {WComplex})} IN IF z = {} THEN 1 ELSE o[Last(z)]
NameIn(b) == LET z == {q \in 1..Len(b) : b[q][1] = "A" /\ b[q][2] \in {WName, WRef}} IN IF z = {} THEN <<>> ELSE KidsText(b[CHOOSE q \in z : \A y \in z : q <= y][4])
Taken(ev, kind, name) == \E q \in InType(ev)..Len(ev)-1 : Named(ev[q], {kind}) /\ ev[q+1][1] = "A" /\ KidsText(ev[q+1][4]) = name

Fits(ev, b) == LET e == b[1]  in == Innermost(ev) IN
  CASE e[1] = ")" -> Depth(ev) > base
    [] Named(e, {WElement}) -> /\ Named(in, Groups \cup {WAll}) /\ ~Taken(ev, WElement, NameIn(b))
                               /\ Named(in, {WAll}) => \A q \in 1..Len(b) : b[q][1] = "A" => b[q][2] # WMax
    [] e[1] = "C" -> TRUE
    [] Named(e, Groups) -> Named(in, Groups) \/ (Named(in, {WComplex}) /\ ev[Len(ev)] # <<")">>)
    [] Named(e, {WAll}) -> Named(in, {WComplex}) /\ ev[Len(ev)] # <<")">>
    [] Named(e, {WAttribute}) -> Named(in, {WComplex}) /\ ~Taken(ev, WAttribute, NameIn(b))
    [] Named(e, {WMinLength, WMaxLength}) -> Named(in, {WRestriction}) /\ \A q \in Last({z \in 1..Len(ev) : Named(ev[z], {WRestriction})})..Len(ev) : ~Named(ev[q], {e[2]})
    [] OTHER -> Named(in, {WRestriction})

Init == \E q \in 1..Len(Sweeps) : \E p \in 1..Len(Sweeps[q].pre) :
          w = q /\ d = Sweeps[q].pre[p] /\ n = 0 /\ hash = p /\ base = Depth(Sweeps[q].pre[p])
Grow == /\ n < Sweeps[w].max /\ n' = n + 1 /\ UNCHANGED <<w, base>>
        /\ \E b \in 1..Len(Sweeps[w].menu) : Fits(d, Sweeps[w].menu[b]) /\ d' = d \o Sweeps[w].menu[b] /\ hash' = (7 * hash + b) % 1009
Next == Grow

Docs == Sweeps[w].docs
Used == n < Sweeps[w].max \/ hash % Sweeps[w].every = 0
\* All that are valid tell more than those that are not: as many of each.
RECURSIVE FirstOf(_, _, _)
FirstOf(z, from, m) == IF m = 0 \/ z = {} THEN {} ELSE LET hi == {q \in z : q >= from}  q == IF hi = {} THEN CHOOSE q \in z : \A y \in z : q <= y ELSE CHOOSE q \in hi : \A y \in hi : q <= y IN {q} \cup FirstOf(z \ {q}, q, m-1)
Says == ~Used \/ LET S == Schema(Ends(d))
                     good == {q \in 1..Len(Docs) : Valid(S, Docs[q])}
                     fine == Plainly(S)
                     start == ((hash * 5) % Len(Docs)) + 1 IN
        ~fine \/ PrintT(ToString(<<"SCHEMA", w, Ends(d), FirstOf(good, start, Sweeps[w].each), FirstOf((1..Len(Docs)) \ good, start, Sweeps[w].each)>>))
\* What is loaded of each document.
Loaded == n > 0 \/ d # Sweeps[w].pre[1] \/ PrintT(ToString(<<"LOADED", w, [q \in 1..Len(Docs) |-> Merged(Decoded(Docs[q]))]>>))
=============================================================================
