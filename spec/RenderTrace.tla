---------------------------- MODULE RenderTrace ----------------------------
(***************************************************************************)
(* Recorded renderings.  Record: s, the text that is rendered (what is     *)
(* printed without colours, or the text that was tokenized); rs, its       *)
(* renderings: fmt html, tex or term; r, the rendering; marks, whether it  *)
(* has colours; exact, every byte of a token has its mark (a tokenizer),   *)
(* otherwise the blanks of layout inside quotes and comments need not have *)
(* it (a printer).                                                         *)
(***************************************************************************)
EXTENDS XmqRender, IOUtils, Json
VARIABLES k, todo

Trace == ndJsonDeserialize(IOEnv.TRACE)

Xsl == <<120, 115, 108>>
Layout == {SP, NL}

\* A key whose parentheses only hold namespace declarations.
RECURSIVE OnlyNs(_, _)
OnlyNs(toks, j) == j <= Len(toks) /\ toks[j].t # "attr_key" /\ (toks[j].t = "apar_right" \/ OnlyNs(toks, j+1))

\* The marks that a byte of a token can have. The names of the xsl language have a mark of their own, doctypes and
\* processing instructions without a value are still keys, a quote of blanks is marked as a quote wherever it is,
\* and so are the blanks of unicode in quotes and comments.
Marks(s, toks, j, exact) ==
  LET ty == toks[j].t  m == MarkOf(ty)
      t == SubSeq(s, toks[j].a, toks[j].b - 1)
  IN IF exact THEN {m}
     ELSE {m}
       \cup (IF ty \in {"element_name", "element_key"} /\ t # <<>> /\ t[1] \in {QMARK, 33} THEN {MEK} ELSE {})
       \cup (IF ty = "element_name" /\ j < Len(toks) /\ toks[j+1].t = "apar_left" /\ OnlyNs(toks, j+1) THEN {MEK} ELSE {})
       \cup (IF ty \in {"element_name", "element_key"} /\ j > 2 /\ toks[j-2].t = "element_ns"
                /\ SubSeq(s, toks[j-2].a, toks[j-2].b - 1) = Xsl THEN {MXSL} ELSE {})
       \cup (IF ty = "attr_ns" /\ t = Xsl THEN {MXSL} ELSE {})
       \cup (IF m \in {MEKV, MAKV} /\ \A i \in 1..Len(t) : t[i] \in {SP, QUO} THEN {MQ} ELSE {})

\* The mark that is drawn for a byte, as a set of marks of the grammar: html and tex name them, a terminal has colours.
Named(fmt, mk) == IF fmt = "term" THEN {} ELSE {mk}

InText(ty) == ty \in {"comment", "comment_continuation", "quote", "element_value_quote", "element_value_compound_quote", "attr_value_quote", "attr_value_compound_quote"}

TokenOk(r, x, toks, j) ==
  LET ms == Marks(r.s, toks, j, r.exact) ty == toks[j].t IN
  \A i \in toks[j].a..toks[j].b-1 :
     \/ r.fmt # "term" /\ x[i][2] \in ms
     \/ r.fmt = "term" /\ (x[i][2] = NoMark <=> NoMark \in ms)
     \/ ~r.exact /\ InText(ty) /\ x[i][1] \in Layout \cup {TAB} /\ x[i][2] = NoMark
     \/ ~r.exact /\ InText(ty) /\ x[i][1] > 127 /\ x[i][2] = MUW
     \* line ends and blanks between tokens are drawn in any colour
     \/ r.fmt = "term" /\ ty = "whitespace"
     \/ ty = "whitespace" /\ r.exact /\ x[i][1] > 127

\* A terminal draws parts of the same kind alike.
Alike(r, x, toks) ==
  r.fmt = "term" =>
    LET ps == {<<Marks(r.s, toks, j, r.exact), x[toks[j].a][2]>> : j \in {j \in 1..Len(toks) : toks[j].a < toks[j].b /\ toks[j].t # "whitespace"}}
        one == {p \in ps : Cardinality(p[1]) = 1}
    IN Cardinality({p[1] : p \in one}) = Cardinality(one)

Verdict(r, l) ==
  LET x == Unrender(r.fmt, r.r)
  IN
  IF \E i \in 1..Len(x) : x[i] = Broken THEN "malformed"
  ELSE IF [i \in 1..Len(x) |-> x[i][1]] # r.s THEN "text"
  ELSE IF l.m.pc = "error" THEN "not-xmq"
  ELSE IF r.marks /\ \E j \in 1..Len(l.toks) : ~TokenOk(r, x, l.toks, j) THEN "mark"
  ELSE IF r.marks /\ ~Alike(r, x, l.toks) THEN "colour"
  ELSE "ok"

\* The verdicts of all the renderings of a text.
Verdicts(e) ==
  LET l == LexRun(e.s)
      of[i \in 1..Len(e.rs)] == Verdict([fmt |-> e.rs[i].fmt, s |-> e.s, r |-> e.rs[i].r, exact |-> e.exact, marks |-> e.rs[i].marks], l)
  IN of

Init == k \in 1..Len(Trace) /\ todo = TRUE
Next == /\ todo /\ todo' = FALSE /\ UNCHANGED k
        /\ LET vs == Verdicts(Trace[k])  bad == {i \in 1..Len(vs) : vs[i] # "ok"} IN
           IF bad = {} THEN PrintT(ToString(<<"DONE", k>>))
           ELSE LET i == CHOOSE i \in bad : TRUE IN PrintT(ToString(<<"MISMATCH", k, vs[i], i>>))
=============================================================================
