----------------------------- MODULE DetectGen -----------------------------
(* Enumerates texts of up to max chunks with the type of their content, and what they *)
(* are read as when a type is expected, for replay against the implementation.        *)
EXTENDS Detect, TLC
CONSTANT Sweeps   \* sequence of [pre, chunks, max]
VARIABLES w, s, n

Wants == <<"detect", "xmq", "htmq", "xml", "html", "json">>
Emit(str) ==
  str = Bom \/
  PrintT(ToString(<<"CASE", str, DetectType(str), IF Utf16(str) THEN 1 ELSE 0, [i \in 1..Len(Wants) |-> ReadAs(str, Wants[i])]>>))
Init == w \in 1..Len(Sweeps) /\ s \in Sweeps[w].pre /\ n = 0 /\ Emit(s)
Next == /\ n < Sweeps[w].max
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ n' = n + 1 /\ w' = w
        /\ Emit(s')

\* Blanks in front never matter, and neither does what a text goes on with after the first significant word.
Blanks == \A b \in DWs : DetectType(<<b>> \o s) = DetectType(s)
Same == \A i \in 2..Len(Wants) : ReadAs(s, Wants[i]) \in {"no", "xmq", Wants[i]}
=============================================================================
