--------------------------------- MODULE Xsd ---------------------------------
(***************************************************************************)
(* Which documents a schema allows (the part of XML Schema 1.0 that is      *)
(* modelled).  A schema is itself a document (an event sequence, see        *)
(* XmqTree), written in any of the formats.                                 *)
(* S is [st, sp, tns, local]: the schema, its parents, the namespace of     *)
(* what is declared at its top and of what is declared below.               *)
(***************************************************************************)
EXTENDS Xslt

Chars == " !'#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[ ]^_`abcdefghijklmnopqrstuvwxyz"
B(s) == [q \in 1..Len(s) |-> LET ch == SubSeq(s, q, q) IN IF ch = " " THEN 32 ELSE CHOOSE k \in 33..122 : SubSeq(Chars, k-31, k-31) = ch /\ k # 34]
XsUri == B("http://www.w3.org/2001/XMLSchema")
WElement == B("element")       WComplex == B("complexType")    WSimple == B("simpleType")   WSequence == B("sequence")  WChoice == B("choice")
WAll == B("all")               WAttribute == B("attribute")    WRestriction == B("restriction")  WEnumeration == B("enumeration")
WMinLength == B("minLength")   WMaxLength == B("maxLength")    WName == B("name")           WType == B("type")          WRef == B("ref")
WMin == B("minOccurs")         WMax == B("maxOccurs")          WUse == B("use")             WFixed == B("fixed")        WMixed == B("mixed")
WBase == B("base")             WValue == B("value")            WUnbounded == B("unbounded") WRequired == B("required")  WProhibited == B("prohibited")
WTrue == B("true")             WFalse == B("false")            WTns == B("targetNamespace") WQualified == B("qualified") WForm == B("elementFormDefault")
XsString == B("xs:string")     XsInt == B("xs:int")            XsBoolean == B("xs:boolean") XsToken == B("xs:token")

Is(S, i, n) == S.st[i][1] = "E" /\ S.st[i][4] = <<XsUri>> /\ S.st[i][2] = n
AttrIn(S, i, n) == LET z == {j \in AttrsOf(S.st, S.sp, i) : S.st[j][2] = n} IN IF z = {} THEN <<>> ELSE KidsText(S.st[CHOOSE j \in z : TRUE][4])
HasIn(S, i, n) == \E j \in AttrsOf(S.st, S.sp, i) : S.st[j][2] = n
Kids(S, i) == {j \in ChildrenOf(S.st, S.sp, i) : S.st[j][1] = "E"}
KidsNamed(S, i, n) == {j \in Kids(S, i) : Is(S, j, n)}
TopOf(S) == CHOOSE j \in 1..Len(S.st) : S.st[j][1] = "E" /\ S.sp[j] = 0
LocalPart(t) == LET z == {q \in 1..Len(t) : t[q] = 58} IN IF z = {} THEN t ELSE SubSeq(t, (CHOOSE q \in z : TRUE) + 1, Len(t))
IsXsType(t) == Len(t) > 3 /\ SubSeq(t, 1, 3) = <<120, 115, 58>>
Global(S, n, name) == {j \in KidsNamed(S, TopOf(S), n) : AttrIn(S, j, WName) = LocalPart(name)}
The(z) == CHOOSE j \in z : TRUE
\* The declaration that a reference stands for.
Meant(S, d) == IF HasIn(S, d, WRef) THEN The(Global(S, S.st[d][2], AttrIn(S, d, WRef))) ELSE d
\* The name of a declaration: what is declared at the top is in the target namespace.
NameOf(S, d) == LET m == Meant(S, d) IN <<AttrIn(S, m, WName), IF S.sp[m] = TopOf(S) THEN S.tns ELSE S.local>>

(* Types: <<"builtin", text>> or <<"at", node>>. *)
TypeOf(S, d) == IF HasIn(S, d, WType)
  THEN LET t == AttrIn(S, d, WType) IN IF IsXsType(t) THEN <<"builtin", t>> ELSE <<"at", The(Global(S, WComplex, t) \cup Global(S, WSimple, t))>>
  ELSE <<"at", The(KidsNamed(S, d, WComplex) \cup KidsNamed(S, d, WSimple))>>

IsBlankCode(q) == q \in {9, 10, 13, 32}
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(t) == IF t # <<>> /\ IsBlankCode(t[1]) THEN TrimLeft(Tail(t)) ELSE t
TrimRight(t) == IF t # <<>> /\ IsBlankCode(t[Len(t)]) THEN TrimRight(SubSeq(t, 1, Len(t)-1)) ELSE t
Stripped(t) == TrimLeft(TrimRight(t))
RECURSIVE Collapsed(_)
Collapsed(t) == IF t = <<>> THEN <<>> ELSE IF IsBlankCode(t[1]) THEN (IF Len(t) > 1 /\ IsBlankCode(t[2]) THEN <<>> ELSE <<32>>) \o Collapsed(Tail(t)) ELSE <<t[1]>> \o Collapsed(Tail(t))
IsInt(t) == LET u == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t IN u # <<>> /\ Len(u) < 10 /\ \A q \in 1..Len(u) : u[q] \in 48..57
\* A value as its type sees it.
Norm(t, v) == IF t = XsString THEN v ELSE Collapsed(Stripped(v))
InBuiltin(t, v) == CASE t = XsString \/ t = XsToken -> TRUE
                     [] t = XsInt -> IsInt(Norm(t, v))
                     [] OTHER -> Norm(t, v) \in {WTrue, WFalse, <<48>>, <<49>>}
CharCount(v) == Cardinality({q \in 1..Len(v) : v[q] < 128 \/ v[q] >= 192})
RECURSIVE NumberFrom(_)
NumberFrom(t) == IF t = <<>> THEN 0 ELSE NumberFrom(SubSeq(t, 1, Len(t)-1)) * 10 + t[Len(t)] - 48
RECURSIVE BaseOf(_, _)
BaseOf(S, ty) == IF ty[1] = "builtin" THEN ty[2] ELSE LET r == The(KidsNamed(S, ty[2], WRestriction))  b == AttrIn(S, r, WBase) IN
                   IF IsXsType(b) THEN b ELSE BaseOf(S, <<"at", The(Global(S, WSimple, b))>>)
RECURSIVE InSimple(_, _, _)
InSimple(S, ty, v) ==
  IF ty[1] = "builtin" THEN InBuiltin(ty[2], v)
  ELSE LET r == The(KidsNamed(S, ty[2], WRestriction))  b == AttrIn(S, r, WBase)  n == Norm(BaseOf(S, ty), v)
           below == IF IsXsType(b) THEN <<"builtin", b>> ELSE <<"at", The(Global(S, WSimple, b))>>
           enum == KidsNamed(S, r, WEnumeration) IN
       /\ InSimple(S, below, v)
       /\ enum # {} => \E j \in enum : Norm(BaseOf(S, ty), AttrIn(S, j, WValue)) = n
       /\ \A j \in KidsNamed(S, r, WMinLength) : CharCount(n) >= NumberFrom(AttrIn(S, j, WValue))
       /\ \A j \in KidsNamed(S, r, WMaxLength) : CharCount(n) <= NumberFrom(AttrIn(S, j, WValue))

(* Content: where a particle that starts at one of the places z of the names L can end. *)
MinOf(S, i) == IF HasIn(S, i, WMin) THEN NumberFrom(AttrIn(S, i, WMin)) ELSE 1
MaxOf(S, i, L) == IF ~HasIn(S, i, WMax) THEN 1 ELSE IF AttrIn(S, i, WMax) = WUnbounded THEN Len(L) + 1 ELSE NumberFrom(AttrIn(S, i, WMax))
RECURSIVE OneOf(_, _, _, _), Times(_, _, _, _, _), InOrder(_, _, _, _)
InOrder(S, P, L, z) == IF P = <<>> THEN z ELSE InOrder(S, Tail(P), L, Times(S, P[1], L, z, 0))
OneOf(S, i, L, z) ==
  IF Is(S, i, WElement) THEN {q+1 : q \in {q \in z : q < Len(L) /\ L[q+1] = NameOf(S, i)}}
  ELSE IF Is(S, i, WChoice) THEN UNION {Times(S, j, L, z, 0) : j \in Kids(S, i)}
  ELSE IF Is(S, i, WSequence) THEN InOrder(S, Ordered(Kids(S, i)), L, z)
  ELSE IF /\ 0 \in z
          /\ \A q \in 1..Len(L) : \E j \in Kids(S, i) : NameOf(S, j) = L[q]
          /\ \A j \in Kids(S, i) : Cardinality({q \in 1..Len(L) : L[q] = NameOf(S, j)}) \in MinOf(S, j)..MaxOf(S, j, L)
       THEN {Len(L)} ELSE {}
\* n rounds have been made: at least MinOf, at most MaxOf.
Times(S, i, L, z, n) ==
  (IF n >= MinOf(S, i) THEN z ELSE {}) \cup
  (IF n >= MaxOf(S, i, L) \/ z = {} THEN {} ELSE LET y == OneOf(S, i, L, z) IN IF y \subseteq z /\ n >= MinOf(S, i) THEN {} ELSE Times(S, i, L, y, n+1))
RECURSIVE Particles(_, _)
Particles(S, i) == UNION {IF Is(S, j, WElement) THEN {j} ELSE Particles(S, j) : j \in {j \in Kids(S, i) : ~Is(S, j, WAttribute)}}

QName(e) == <<e[2], IF e[4] = <<>> THEN <<>> ELSE e[4][1]>>
RECURSIVE Allows(_, _, _, _, _)
\* The element i of the document ev (its parents: par) against the declaration decl.
Allows(S, decl, ev, par, i) ==
  LET ty == TypeOf(S, Meant(S, decl))
      kids == {j \in ChildrenOf(ev, par, i) : ev[j][1] = "E"}
      texts == {j \in ChildrenOf(ev, par, i) : ev[j][1] = "T"}
      atts == AttrsOf(ev, par, i)
      value == ConcatOf([q \in 1..Cardinality(texts) |-> ev[Ordered(texts)[q]][2]])
      valueOf(j) == KidsText(ev[j][4])
  IN IF ty[1] = "builtin" \/ Is(S, ty[2], WSimple)
     THEN kids = {} /\ atts = {} /\ InSimple(S, ty, value)
     ELSE LET t == ty[2]
              groups == {j \in Kids(S, t) : ~Is(S, j, WAttribute)}
              decls == Particles(S, t)
              L == [q \in 1..Cardinality(kids) |-> QName(ev[Ordered(kids)[q]])]
              known == {j \in KidsNamed(S, t, WAttribute) : AttrIn(S, j, WUse) # WProhibited}
              said(j) == {a \in atts : ev[a][2] = AttrIn(S, Meant(S, j), WName)}
          IN /\ \A a \in atts : ev[a][5] = <<>> /\ \E j \in known : a \in said(j) /\ InSimple(S, TypeOf(S, j), valueOf(a))
                                     /\ (HasIn(S, j, WFixed) => Norm(BaseOf(S, TypeOf(S, j)), valueOf(a)) = Norm(BaseOf(S, TypeOf(S, j)), AttrIn(S, j, WFixed)))
             /\ \A j \in known : AttrIn(S, j, WUse) = WRequired => said(j) # {}
             /\ AttrIn(S, t, WMixed) # WTrue => IF decls = {} THEN texts = {} ELSE \A j \in texts : WsOnly(ev[j][2])
             /\ IF groups = {} THEN kids = {} ELSE Len(L) \in Times(S, The(groups), L, {0}, 0)
             /\ \A j \in kids : \E d \in decls : NameOf(S, d) = QName(ev[j]) /\ Allows(S, d, ev, par, j)

Schema(events) == LET st == Plain(Decoded(events))  sp == Parents(st)  S == [st |-> st, sp |-> sp, tns |-> <<>>, local |-> <<>>]  t == AttrIn(S, TopOf(S), WTns) IN
  [S EXCEPT !.tns = t, !.local = IF AttrIn(S, TopOf(S), WForm) = WQualified THEN t ELSE <<>>]
\* Groups that repeat and in which something repeats or is optional are not judged: whether the content of one round
\* can be told from that of the next is up to the library that validates.
RECURSIVE Repeats(_, _, _)
Repeats(S, i, within) ==
  \E j \in {j \in Kids(S, i) : ~Is(S, j, WAttribute)} :
    LET many == HasIn(S, j, WMin) \/ HasIn(S, j, WMax) IN
    (within /\ many) \/ (~Is(S, j, WElement) /\ Repeats(S, j, within \/ many))
\* Nor are groups in a group that have nothing in them.
Plainly(S) == ~(\E i \in 1..Len(S.st) : (Is(S, i, WChoice) \/ Is(S, i, WSequence)) /\ ~Is(S, S.sp[i], WComplex) /\ Kids(S, i) = {}) /\ ~(\E i \in 1..Len(S.st) : Is(S, i, WComplex) /\ Repeats(S, i, FALSE))
\* The first element is the root; it is one of those that are declared at the top.
Valid(S, doc) ==
  LET ev == Plain(Decoded(doc))  par == Parents(ev)
      roots == {j \in 1..Len(ev) : ev[j][1] = "E" /\ par[j] = 0} IN
  /\ roots # {}
  /\ \A j \in 1..Len(ev) : ev[j][1] # "R" /\ (ev[j][1] = "A" => \A q \in 1..Len(ev[j][4]) : ev[j][4][q][1] # "R")
  /\ LET r == Ordered(roots)[1] IN \E d \in KidsNamed(S, TopOf(S), WElement) : NameOf(S, d) = QName(ev[r]) /\ Allows(S, d, ev, par, r)
=============================================================================
