------------------------------- MODULE PipeGen -------------------------------
(* Every sequence of up to max commands of a menu on every document of a set. *)
EXTENDS Pipe
CONSTANT Sweeps      \* sequence of [docs, menu (sequence of commands), max]
VARIABLES w, first, d, ok, hist

Say(i, x, h, y, fine) == PrintT(ToString(<<"RUN", i, x, h, y, IF fine THEN 1 ELSE 0>>))
Init == /\ w \in 1..Len(Sweeps) /\ first \in 1..Len(Sweeps[w].docs) /\ d = Sweeps[w].docs[first] /\ ok = TRUE /\ hist = <<>>
Next == /\ ok /\ Len(hist) < Sweeps[w].max
        /\ UNCHANGED <<w, first>>
        /\ \E i \in 1..Len(Sweeps[w].menu) :
             LET r == Apply(d, Sweeps[w].menu[i]) IN
             /\ r.def /\ Consistent(r.ev)
             /\ d' = r.ev /\ ok' = r.ok /\ hist' = Append(hist, i)
             /\ Say(w, first, hist', d', ok')

\* What the commands keep, whatever the document.
Nests == Balanced(d, 1, 0)
Bare == \A i \in 1..Len(d) : d[i][1] = "D" => i = 1 \/ \A j \in 1..i-1 : d[j][1] \in {"C", "P"}
=============================================================================
