----------------------------- MODULE CStringGen -----------------------------
(* Enumerates texts: each is quoted, and read as a C string that is unquoted. *)
(* Sweeps: sequence of [pre, chunks, ends, max].                              *)
EXTENDS CString, TLC
CONSTANT Sweeps
VARIABLES w, s, n

Emit(sw, str) == \A e \in Sweeps[sw].ends : PrintT(ToString(<<"CASE", str \o e, Unquoted(str \o e)>>))
Init == /\ w \in 1..Len(Sweeps) /\ n = 0 /\ s \in Sweeps[w].pre /\ Emit(w, s)
Next == /\ n < Sweeps[w].max /\ n' = n + 1 /\ w' = w
        /\ \E c \in Sweeps[w].chunks : s' = s \o c
        /\ Emit(w, s')

\* What is written for a text is one C string on one line that means the text.
Written == IsC(WriteC(s), s)
Back == Unquoted(WriteC(s)) = <<"text", s>>
\* Nothing after the string, or blanks before it, change it.
Blanks == LET u == WriteC(s) IN Unquoted(<<32, 10>> \o u \o <<10>>) = <<"text", s>>
\* A string that is cut anywhere is not a string.
Cut == LET u == WriteC(s) IN \A i \in 0..Len(u)-1 : Unquoted(SubSeq(u, 1, i)) = <<"invalid">>
=============================================================================
