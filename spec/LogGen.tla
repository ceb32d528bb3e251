------------------------------- MODULE LogGen -------------------------------
(* Every log call with up to max keys from a list, and values of up to len   *)
(* chunks; and every single value.                                            *)
EXTENDS Log
CONSTANT Sweeps      \* sequence of [names, keys, chunks, len, max, single]
VARIABLES w, c, val, open   \* val: the value that is being made, open: whether there is one

Say(x) == PrintT(ToString(<<"CALL", x.name, x.mark, x.kvs>>))
Start == {[name |-> Sweeps[q].names[i], q |-> q] : <<q, i>> \in UNION {{<<q, i>> : i \in 1..Len(Sweeps[q].names)} : q \in 1..Len(Sweeps)}}
Init == \E z \in Start : w = z.q /\ c = LineInit(z.name) /\ val = <<>> /\ open = FALSE
Begin == ~open /\ Len(c.kvs) < Sweeps[w].max /\ open' = TRUE /\ val' = <<>> /\ UNCHANGED <<w, c>>
Grow == /\ open /\ Len(val) < Sweeps[w].len
        /\ \E i \in 1..Len(Sweeps[w].chunks) : val' = Append(val, i) /\ UNCHANGED <<w, c, open>>
Text == Flat([j \in 1..Len(val) |-> Sweeps[w].chunks[val[j]]])
Close == /\ open /\ open' = FALSE /\ val' = <<>> /\ UNCHANGED w
         /\ c' = LineAdd(c, Sweeps[w].keys[((Len(c.kvs) + Len(val)) % Len(Sweeps[w].keys)) + 1], Text)
         /\ IF Sweeps[w].single THEN Say([c' EXCEPT !.mark = "value"]) /\ (Text = <<>> \/ Say([c' EXCEPT !.name = Text, !.mark = "text", !.kvs = <<>>])) ELSE Say(c')
Next == Begin \/ Grow \/ Close

\* What is begun keeps what it has: keys are only added, and the document of a line grows with it.
Grows == Len(LineDoc(c)) >= 2 + 2 * Len(c.kvs)
=============================================================================
