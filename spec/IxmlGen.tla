------------------------------ MODULE IxmlGen ------------------------------
(* Enumerates grammars: the first rule of a skeleton is built term by term  *)
(* (a term, an operator on the last term, a new alternative, a group of all *)
(* so far).  Every text over the alphabet is parsed with it.                *)
EXTENDS Ixml, TLC
CONSTANT Sweeps    \* sequence of [rest (sets of rules), terms, seps, ops, alphabet (of texts), max, len, styles]
VARIABLES w, rest, alts, n

RECURSIVE Texts(_, _)
Texts(abc, len) == IF len = 0 THEN {<<>>} ELSE LET t == Texts(abc, len-1) IN t \cup {a \o b : a \in t, b \in abc}
Start == <<83>>
Grammar == <<[name |-> Start, mark |-> 0, alias |-> <<>>, alts |-> alts]>> \o rest
S == Sweeps[w]
\* One style is used for a grammar, they take turns.
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE b[1] + Sum(Tail(b))
Style(G) == LET plain == Write(G, S.styles[1]) IN S.styles[1 + (Sum(plain) % Len(S.styles))]

Emit == LET G == Grammar  words == Texts(S.alphabet, S.len) IN
  IF ~Proper(G) THEN PrintT(ToString(<<"BAD", Write(G, Style(G))>>))
  ELSE PrintT(ToString(<<"IXML", Write(G, Style(G)), {<<Bytes(x), Parse(G, x)>> : x \in words}>>))
Init == w \in 1..Len(Sweeps) /\ rest \in Sweeps[w].rest /\ alts = <<<<>>>> /\ n = 0
Last == alts[Len(alts)]
WithLast(a) == [alts EXCEPT ![Len(alts)] = a]
Simple(f) == f[1] \in {"lit", "set", "nt", "grp", "ins"}
Next ==
  /\ n < S.max /\ n' = n+1 /\ UNCHANGED <<w, rest>>
  /\ \/ \E f \in S.terms : alts' = WithLast(Append(Last, f))
     \/ /\ Last # <<>> /\ Simple(Last[Len(Last)])
        /\ \E o \in S.ops : IF o \in {"plus2", "star2"} THEN \E p \in S.seps : alts' = WithLast([Last EXCEPT ![Len(Last)] = <<o, Last[Len(Last)], p>>])
                            ELSE alts' = WithLast([Last EXCEPT ![Len(Last)] = <<o, Last[Len(Last)]>>])
     \/ alts' = Append(alts, <<>>)
     \/ (alts # <<<<>>>> /\ ~(Len(alts) = 1 /\ Len(alts[1]) = 1 /\ alts[1][1][1] = "grp")) /\ alts' = <<<<<<"grp", alts>>>>>>
Report == Emit
=============================================================================
