---------------------------- MODULE LookupTrace ----------------------------
(* Recorded lookups.  Record: doc, the document; asks, what was looked up:   *)
(* k "each": p paths, stop, hits, seen; "get": p, got; "rel": p, q a path     *)
(* from each node of p, in, the walks [hits, seen] from each, gots, the       *)
(* values from each; "root": seen, name and content of the root.              *)
EXTENDS Lookup, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)

Root(ev, par) == LET S == {i \in 1..Len(ev) : par[i] = 0 /\ ev[i][1] = "E"} IN IF S = {} THEN 0 ELSE FirstOf(S)
AllDecided(ev, L) == \A j \in 1..Len(L) : Decided(ev, L[j])
From(ev, L, i) == UNION {NodesFrom(ev, L[j], i) : j \in 1..Len(L)}
Right(ev, par, a) ==
  CASE a.k = "root" -> LET i == Root(ev, par) IN IF i = 0 THEN a.seen = <<<<>>, <<>>>>
                                                 ELSE a.seen[1] = TheName(ev, i) /\ (PlainContent(ev, par, i) => ContentIs(ContentOf(ev, par, i), a.seen[2]))
    [] a.k = "each" -> AllDecided(ev, a.p) => EachOk(ev, par, NodesOf(ev, a.p), a.stop, a.hits, a.seen)
    [] a.k = "get" -> AllDecided(ev, a.p) => GetOk(ev, par, NodesOf(ev, a.p), a.got)
    [] a.k = "rel" -> AllDecided(ev, a.p) /\ AllDecided(ev, a.q) =>
         LET from == Sorted(NodesOf(ev, a.p)) IN
         /\ Len(a.in) = Len(from) /\ Len(a.gots) = Len(from) /\ a.hits = Len(from)
         /\ \A j \in 1..Len(from) : LET S == From(ev, a.q, from[j]) IN
              EachOk(ev, par, S, 0 - 1, a.in[j].hits, a.in[j].seen) /\ GetOk(ev, par, S, a.gots[j])

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET r == Trace[k]
               par == Parents(r.doc)
               bad == {j \in 1..Len(r.asks) : ~Right(r.doc, par, r.asks[j])} IN
           IF bad = {} THEN PrintT(ToString(<<"DONE", k>>))
           ELSE PrintT(ToString(<<"MISMATCH", k, FirstOf(bad)>>))
=============================================================================
