------------------------------ MODULE XsltGen ------------------------------
(* Stylesheets: a start, then up to max blocks of events from a menu, then    *)
(* the ends of the elements that are open.  For each, the document that it    *)
(* makes of a document with values for its parameters.                        *)
EXTENDS Xslt
CONSTANTS Sweeps,     \* sequence of [pre, menu, max, docs, mods, more (other documents), given, all, every, first (stylesheets that come before)]
          Table       \* the paths
VARIABLES w, d, n, hash, base

RECURSIVE Opened(_, _, _)
Opened(ev, q, o) == IF q > Len(ev) THEN o ELSE Opened(ev, q+1, IF ev[q][1] = "E" THEN Append(o, q) ELSE IF ev[q][1] = ")" THEN SubSeq(o, 1, Len(o)-1) ELSE o)
Depth(ev) == Len(Opened(ev, 1, <<>>))
Ends(ev) == ev \o [q \in 1..Depth(ev) |-> <<")">>]
Innermost(ev) == LET o == Opened(ev, 1, <<>>) IN ev[o[Len(o)]]

\* Which blocks can follow: attributes after the start of an element of the result, ends of what the blocks have opened,
\* a new template where all of it has ended.
Fits(ev, b) ==
  CASE b[1][1] = "A" -> ev[Len(ev)][1] \in {"E", "A"} /\ ~AnyXsl(Innermost(ev)) /\ ~(ev[Len(ev)][1] = "A" /\ ev[Len(ev)][2] = b[1][2])
    [] b = <<<<")">>>> -> Depth(ev) > base
    [] b[1][1] = ")" -> Depth(ev) = base /\ ~IsXsl(Innermost(ev), "otherwise")
    [] IsXsl(Innermost(ev), "include") -> FALSE
    [] IsXsl(Innermost(ev), "text") -> b[1][1] \in {"T", "R"}
    [] IsXsl(Innermost(ev), "comment") \/ IsXsl(Innermost(ev), "attribute") -> b[1][1] \in {"T", "R"} \/ IsXsl(b[1], "value-of")
    [] OTHER -> TRUE

Init == \E q \in 1..Len(Sweeps) : \E p \in 1..Len(Sweeps[q].pre) :
          w = q /\ d = Sweeps[q].pre[p] /\ n = 0 /\ hash = p /\ base = Depth(Sweeps[q].pre[p])
Grow == /\ n < Sweeps[w].max /\ n' = n + 1 /\ UNCHANGED <<w, base>>
        /\ \E b \in 1..Len(Sweeps[w].menu) : Fits(d, Sweeps[w].menu[b]) /\ d' = d \o Sweeps[w].menu[b] /\ hash' = (7 * hash + b) % 1009
Next == Grow

Docs == Sweeps[w].docs
Given == Sweeps[w].given
Through(style, ev, g) == IF ~Whole(ev) THEN ev ELSE Transformed(style, Sweeps[w].mods, <<Merged(ev)>> \o Sweeps[w].more, Table, Given[g])
RECURSIVE AllThrough(_, _, _)
AllThrough(L, ev, g) == IF L = <<>> THEN ev ELSE AllThrough(Tail(L), Through(L[1], ev, g), g)
\* Stylesheets that come one after the other: each gets what the one before has made.
Result(i, g) == AllThrough(Append(Sweeps[w].first, Ends(d)), Docs[i], g)
Pairs == {<<i, g>> : i \in 1..Len(Docs), g \in 1..Len(Given)}
Chosen == IF Sweeps[w].all THEN Pairs ELSE {<<(hash % Len(Docs)) + 1, ((hash \div 3) % Len(Given)) + 1>>}
\* The result nests, when it is one; and it is said what it is.
RECURSIVE Level(_, _, _)
Level(ev, q, m) == IF q > Len(ev) THEN m ELSE IF m < 0 THEN m ELSE Level(ev, q+1, IF ev[q][1] = "E" THEN m+1 ELSE IF ev[q][1] = ")" THEN m-1 ELSE m)
\* Of the longest ones, every n-th.
Taken == n < Sweeps[w].max \/ hash % Sweeps[w].every = 0
Says == ~Taken \/ \A z \in Chosen : LET r == Result(z[1], z[2]) IN
          IF Whole(r) THEN Level(r, 1, 0) = 0 /\ PrintT(ToString(<<"RUN", w, Ends(d), z[1], z[2], Merged(r)>>)) ELSE TRUE
=============================================================================
