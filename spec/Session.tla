------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A program that uses the library: documents in slots, and calls on them. *)
(* A document is one of Docs (what it looks like on its own is recorded    *)
(* from programs that make a single call).  Loading puts a document into a *)
(* slot, or nothing when the text is wrong; trimming turns it into another *)
(* document; printing, looking up and everything that has no document to   *)
(* work on leave all slots as they are.  So an answer depends on the call  *)
(* and on the document in its slot, not on what was done before, to this   *)
(* or to other documents.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANT Calls     \* sequence of [k |-> "load", to], [k |-> "trim", map], [k |-> "show"], [k |-> "aside"], [k |-> "free"]
CONSTANT Starts    \* sequence of [from, menus: sequence of sets of calls]
VARIABLES w, slots, hist

\* What is in the slot after the call.
After(call, d) == CASE call.k = "load" -> call.to
                    [] call.k = "trim" -> call.map[d]
                    [] call.k = "free" -> 0
                    [] OTHER -> d
Possible(call, d) == IF call.k \in {"load", "aside"} THEN TRUE ELSE IF d = 0 THEN FALSE ELSE IF call.k = "trim" THEN call.map[d] # 0 ELSE TRUE

Init == \E i \in 1..Len(Starts) : w = i /\ slots = Starts[i].from /\ hist = <<>>
Next == /\ Len(hist) < Len(Starts[w].menus) /\ UNCHANGED w
        /\ \E s \in 1..Len(slots) : \E n \in Starts[w].menus[Len(hist)+1] :
             /\ Possible(Calls[n], slots[s])
             /\ Calls[n].k = "aside" => s = 1
             /\ slots' = [slots EXCEPT ![s] = After(Calls[n], slots[s])]
             /\ hist' = Append(hist, <<s, n>>)
             /\ Len(hist') = Len(Starts[w].menus) => PrintT(ToString(<<"RUN", w, hist', slots'>>))

\* A call touches its own slot only.
Apart == [][\A s \in 1..Len(slots) : s # hist'[Len(hist')][1] => slots'[s] = slots[s]]_<<slots, hist>>
=============================================================================
