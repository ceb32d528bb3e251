------------------------------ MODULE IxmlText ------------------------------
(* Which texts are grammars.  A text is a sequence of signs, written as     *)
(* code points: a letter stands for a whole name, string or encoded         *)
(* character.  The grammar of grammars is itself a grammar of Ixml.         *)
EXTENDS Ixml, TLC
CONSTANT Contexts   \* sequence of [before, after (signs), signs (a set), max]
VARIABLES c, mid

Name == 120     \* x: a name that is no category
Class == 76     \* L: a name that is a category too
Str == 115      \* s: a string of one character
Long == 108     \* l: a string of several characters
Hex == 104      \* h: an encoded character
Twice1 == 80    \* P: ++
Twice0 == 83    \* S: **
Ixml1 == 105    \* i: the name ixml
Version == 118  \* v: the name version
Range(a, b) == <<"set", 0, FALSE, <<<<"r", a, b>>>>>>
One(s) == <<"set", 0, FALSE, <<<<"s", s>>>>>>
N(name) == <<"nt", 0, name>>
Opt(f) == <<"opt", f>>
Grp(alts_) == <<"grp", alts_>>
L(ch) == <<"lit", 0, <<ch>>>>
RuleOf(name, alts_) == [name |-> name, mark |-> 0, alias |-> <<>>, alts |-> alts_]
AnyName == One(<<Name, Class, Ixml1, Version>>)
AnyMark == One(<<45, 64, 94>>)
TextMark == One(<<45, 94>>)
Chars1 == One(<<Str, Long, Hex>>)
Bars == One(<<59, 124>>)
\* Rule <<k>> is the k-th.
Ixml0 == <<
  RuleOf(<<1>>, << <<Opt(N(<<2>>)), <<"plus", N(<<3>>)>>>> >>),
  RuleOf(<<2>>, << <<L(Ixml1), L(Version), One(<<Str, Long>>), L(46)>> >>),
  RuleOf(<<3>>, << <<Opt(AnyMark), AnyName, Opt(Grp(<< <<L(62), AnyName>> >>)), One(<<58, 61>>), N(<<4>>), L(46)>> >>),
  RuleOf(<<4>>, << <<<<"plus2", N(<<5>>), Bars>>>> >>),
  RuleOf(<<5>>, << <<<<"star2", N(<<6>>), L(44)>>>> >>),
  RuleOf(<<6>>, << <<N(<<7>>)>>, <<N(<<7>>), One(<<63, 42, 43>>)>>, <<N(<<7>>), One(<<Twice1, Twice0>>), N(<<7>>)>> >>),
  RuleOf(<<7>>, << <<Opt(TextMark), One(<<Str, Long, Hex>>)>>, <<Opt(AnyMark), AnyName>>, <<L(43), Chars1>>, <<L(40), N(<<4>>), L(41)>>,
                   <<Opt(TextMark), Opt(L(126)), L(91), <<"star2", N(<<8>>), Bars>>, L(93)>> >>),
  RuleOf(<<8>>, << <<Chars1>>, <<L(Class)>>, <<One(<<Str, Hex>>), L(45), One(<<Str, Hex>>)>> >>)
>>
\* Where a term that begins at i can end. No rule of Ixml0 begins with itself.
RECURSIVE Ends(_, _, _, _)
RECURSIVE EndsSeq(_, _, _, _, _)
RECURSIVE More(_, _, _, _)
EndsSeq(G, w, fs, n, at) == IF n > Len(fs) \/ at = {} THEN at ELSE EndsSeq(G, w, fs, n+1, UNION {Ends(G, w, fs[n], i) : i \in at})
EndsAlts(G, w, alts_, i) == UNION {EndsSeq(G, w, alts_[a], 1, {i}) : a \in 1..Len(alts_)}
More(G, w, fs, at) == LET next == at \cup EndsSeq(G, w, fs, 1, at) IN IF next = at THEN at ELSE More(G, w, fs, next)
Ends(G, w, f, i) ==
  CASE f[1] = "lit" -> IF i <= Len(w) /\ w[i] = f[3][1] THEN {i+1} ELSE {}
    [] f[1] = "set" -> IF i <= Len(w) /\ InSet(f, w[i]) THEN {i+1} ELSE {}
    [] f[1] = "nt" -> EndsAlts(G, w, G[f[3][1]].alts, i)
    [] f[1] = "grp" -> EndsAlts(G, w, f[2], i)
    [] f[1] = "opt" -> {i} \cup Ends(G, w, f[2], i)
    [] f[1] = "star" -> {i} \cup More(G, w, <<f[2]>>, Ends(G, w, f[2], i))
    [] f[1] = "plus" -> More(G, w, <<f[2]>>, Ends(G, w, f[2], i))
    [] f[1] = "plus2" -> More(G, w, <<f[3], f[2]>>, Ends(G, w, f[2], i))
    [] f[1] = "star2" -> {i} \cup More(G, w, <<f[3], f[2]>>, Ends(G, w, f[2], i))
\* What is tolerated: a missing comma and one at the end, separators of a set that separate nothing, an alias of a reference.
Loose0 == [Ixml0 EXCEPT ![5].alts = << <<<<"star", Grp(<< <<N(<<6>>), Opt(L(44))>> >>)>>>> >>,
                        ![7].alts = Append(@, <<Opt(AnyMark), AnyName, L(62), AnyName>>),
                        ![8].alts = Append(@, <<>>)]
Verdict(signs) == IF Len(signs)+1 \in Ends(Ixml0, signs, N(<<1>>), 1) THEN "good"
                  ELSE IF Len(signs)+1 \in Ends(Loose0, signs, N(<<1>>), 1) THEN "tolerable"
                  ELSE "bad"

Whole == Contexts[c].before \o mid \o Contexts[c].after
Init == c \in 1..Len(Contexts) /\ mid = <<>>
Next == Len(mid) < Contexts[c].max /\ \E s \in Contexts[c].signs : mid' = Append(mid, s) /\ UNCHANGED c
Report == PrintT(ToString(<<"TEXT", Whole, Verdict(Whole)>>))
=============================================================================
