------------------------------- MODULE Dom -------------------------------
(* Documents.  A forest f is a sequence of nodes; a node is identified by  *)
(* its index, for ever (detached nodes stay).  Fields:                     *)
(*   t kind   n name   v value   p parent (0: none)                        *)
(*   c children   a attributes (sequences of node ids)                     *)
EXTENDS Sax

Node(t, n, v, p) == [t |-> t, n |-> n, v |-> v, p |-> p, c |-> <<>>, a |-> <<>>]

(* ---- Building a document from tokens ----------------------------------- *)
AddChild(st, t, n, v) ==
    LET id == Len(st.f) + 1
    IN [st EXCEPT !.f = Append([st.f EXCEPT ![st.cur].c = Append(@, id)], Node(t, n, v, st.cur))]

XmlName == S("xml")

BuildStep(st, tok) ==
    IF ~st.ok THEN st
    ELSE CASE tok.k = "S" ->
              LET id == Len(st.f) + 1
                  na == Len(tok.a)
                  e  == [Node("elem", tok.n, <<>>, st.cur) EXCEPT
                           !.a = Tup([k \in 1..na |-> id + k])]
                  as == Tup([k \in 1..na |-> Node("attr", tok.a[k].n, tok.a[k].v, id)])
              IN [ok |-> TRUE, cur |-> id,
                  f |-> [st.f EXCEPT ![st.cur].c = Append(@, id)] \o <<e>> \o as]
           [] tok.k = "E" ->
              IF st.cur = 1 \/ st.f[st.cur].n # tok.n THEN [st EXCEPT !.ok = FALSE]
              ELSE [st EXCEPT !.cur = st.f[st.cur].p]
           [] tok.k = "T" -> AddChild(st, "text", <<>>, tok.v)
           [] tok.k = "C" -> AddChild(st, "comm", <<>>, tok.v)
           [] tok.k = "P" -> AddChild(st, IF tok.n = XmlName THEN "decl" ELSE "pi", tok.n, tok.v)
           [] tok.k = "D" -> st

Build(toks) ==
    LET r == FoldLeft(BuildStep, [ok |-> TRUE, cur |-> 1, f |-> <<Node("doc", <<>>, <<>>, 0)>>], toks)
    IN [ok |-> r.ok /\ r.cur = 1, f |-> r.f]

(* new_document: res is "ok", "err" or "oom".                              *)
NewDocument(txt) ==
    LET s == SaxAll(txt)
        b == Build(s.toks)
    IN IF s.end = "oom" THEN [res |-> IF ~b.ok /\ FALSE THEN "err" ELSE "oom", f |-> <<>>]
       ELSE IF s.end = "err" THEN [res |-> "err", f |-> <<>>]
       ELSE IF b.ok THEN [res |-> "ok", f |-> b.f]
       ELSE [res |-> "err", f |-> <<>>]

(* ---- Structure ---------------------------------------------------------- *)
RECURSIVE Order(_, _)
(* The nodes of the subtree of x in document order.                        *)
Order(f, x) == <<x>> \o f[x].a \o Cat(MapSeq(f[x].c, LAMBDA k : Order(f, k)))

RECURSIVE RootOf(_, _)
RootOf(f, x) == IF f[x].p = 0 THEN x ELSE RootOf(f, f[x].p)

FirstWhere(s, P(_)) == LET m == SelectSeq(s, P) IN IF m = <<>> THEN 0 ELSE m[1]
RootElement(f, x) ==
    LET r == RootOf(f, x)  e == FirstWhere(f[r].c, LAMBDA k : f[k].t = "elem")
    IN IF e = 0 THEN r ELSE e
FirstChild(f, x) == IF f[x].c = <<>> THEN 0 ELSE f[x].c[1]
NthChild(f, x, k) == IF k >= 0 /\ k < Len(f[x].c) THEN f[x].c[k + 1] ELSE 0     \* k from 0

Colon(n) == Find(n, 1, LAMBDA c : c = 58)
LocalName(n) == IF Colon(n) > Len(n) THEN n ELSE SubSeq(n, Colon(n) + 1, Len(n))
SpaceName(n) == IF Colon(n) > Len(n) THEN <<>> ELSE SubSeq(n, 1, Colon(n) - 1)

NOVAL == <<-1>>
AttrVal(f, x, n) ==
    LET a == FirstWhere(f[x].a, LAMBDA k : f[k].n = n) IN IF a = 0 THEN NOVAL ELSE f[a].v

XmlnsT == S("xmlns")
RECURSIVE NsLookup(_, _, _)
NsLookup(f, x, decl) ==
    IF x = 0 THEN <<>>
    ELSE IF f[x].t = "doc" THEN <<>>
    ELSE LET v == AttrVal(f, x, decl) IN IF v # NOVAL THEN v ELSE NsLookup(f, f[x].p, decl)
XmlT == S("xml")  XmlUri == S("http://www.w3.org/XML/1998/namespace")
(* Only elements and attributes have one; the default namespace is that of *)
(* elements only; the prefix xml is always bound.                          *)
NsUri(f, x) == LET s == SpaceName(f[x].n)
               IN IF f[x].t \notin {"elem", "attr"} \/ (f[x].t = "attr" /\ s = <<>>) THEN <<>>
                  ELSE IF s = XmlT THEN XmlUri
                  ELSE NsLookup(f, x, IF s = <<>> THEN XmlnsT ELSE XmlnsT \o <<58>> \o s)

(* String value (XPath data model).                                        *)
RECURSIVE TextIn(_, _)
TextIn(f, x) == Cat(MapSeq(f[x].c, LAMBDA k : IF f[k].t = "text" THEN f[k].v
                                              ELSE IF f[k].t = "elem" THEN TextIn(f, k) ELSE <<>>))
StringValue(f, x) == IF f[x].t \in {"doc", "elem"} THEN TextIn(f, x)
                     ELSE IF f[x].t \in {"pi", "decl"} THEN f[x].v
                     ELSE f[x].v

(* ---- Serialisation ------------------------------------------------------ *)
AmpT == S("&amp;") LtT == S("&lt;") GtT == S("&gt;") QuotT == S("&quot;") AposT == S("&apos;") CrT == S("&#13;")
EncChar(c) == CASE c = 38 -> AmpT [] c = 60 -> LtT [] c = 62 -> GtT [] c = 34 -> QuotT
                [] c = 39 -> AposT [] c = 13 -> CrT [] OTHER -> <<c>>
Enc(t) == IF \A i \in 1..Len(t) : t[i] \notin {38, 60, 62, 34, 39, 13} THEN t
          ELSE Cat(MapSeq(t, EncChar))
AttrText(f, a) == <<32>> \o f[a].n \o <<61, 34>> \o Enc(f[a].v) \o <<34>>

Spaces(n) == Tup([i \in 1..n |-> 32])

(* ind: indentation of this node, step: 0 plain, 4 pretty.                 *)
RECURSIVE Ser(_, _, _, _)
Ser(f, x, ind, step) ==
    LET nd == f[x]
        nl == IF step > 0 THEN <<10>> ELSE <<>>
        kids(i) == Cat(MapSeq(nd.c, LAMBDA k : Ser(f, k, i, step)))
    IN CASE nd.t = "doc" -> kids(ind)
         [] nd.t = "elem" ->
              LET open == Spaces(ind) \o <<60>> \o nd.n \o Cat(MapSeq(nd.a, LAMBDA a : AttrText(f, a)))
              IN IF nd.c = <<>> THEN open \o <<47, 62>> \o nl
                 ELSE open \o <<62>> \o nl \o kids(ind + step)
                      \o Spaces(ind) \o <<60, 47>> \o nd.n \o <<62>> \o nl
         [] nd.t = "text" -> Spaces(ind) \o Enc(nd.v) \o nl
         [] nd.t = "comm" -> Spaces(ind) \o <<60, 33, 45, 45>> \o nd.v \o <<45, 45, 62>> \o nl
         [] nd.t \in {"pi", "decl"} -> Spaces(ind) \o <<60, 63>> \o nd.n \o <<32>> \o nd.v \o <<63, 62>> \o nl
         [] OTHER -> <<>>
ToText(f, x) == Ser(f, x, 0, 0)
ToPretty(f, x) == Ser(f, x, 0, 4)
InnerXml(f, x) == Cat(MapSeq(f[x].c, LAMBDA k : Ser(f, k, 0, 0)))

DocRootT == S("(DocumentRoot)")
Display(f, x) ==
    CASE f[x].t = "doc" -> DocRootT
      [] f[x].t = "elem" -> <<60>> \o f[x].n
           \o Cat(MapSeq(f[x].a, LAMBDA a : <<32>> \o f[a].n \o <<61, 34>> \o f[a].v \o <<34>>)) \o <<62>>
      [] f[x].t = "text" -> f[x].v
      [] f[x].t = "attr" -> f[x].n \o <<61, 34>> \o f[x].v \o <<34>>
      [] OTHER -> <<>>

(* ---- The document a serialised document denotes: adjacent texts are one, *)
(* ---- empty ones none.                                                    *)
MergeKids(f, cs) ==       \* sequence of [ids]: texts grouped, empty texts dropped
    FoldLeft(LAMBDA acc, k :
        IF f[k].t = "text"
        THEN IF f[k].v = <<>> THEN acc
             ELSE IF acc # <<>> /\ f[acc[Len(acc)][1]].t = "text"
                  THEN [acc EXCEPT ![Len(acc)] = Append(@, k)]
                  ELSE Append(acc, <<k>>)
        ELSE Append(acc, <<k>>), <<>>, cs)

(* A tree as a nested value, independent of node ids.                      *)
RECURSIVE Shape(_, _)
Shape(f, x) == [t |-> f[x].t, n |-> f[x].n, v |-> f[x].v,
                a |-> MapSeq(f[x].a, LAMBDA a : [n |-> f[a].n, v |-> f[a].v]),
                c |-> MapSeq(f[x].c, LAMBDA k : Shape(f, k))]
RECURSIVE MergedShape(_, _)
MergedShape(f, x) ==
    [t |-> f[x].t, n |-> f[x].n, v |-> f[x].v,
     a |-> MapSeq(f[x].a, LAMBDA a : [n |-> f[a].n, v |-> f[a].v]),
     c |-> MapSeq(MergeKids(f, f[x].c), LAMBDA g :
             IF f[g[1]].t = "text"
             THEN [t |-> "text", n |-> <<>>, v |-> Cat(MapSeq(g, LAMBDA k : f[k].v)), a |-> <<>>, c |-> <<>>]
             ELSE MergedShape(f, g[1]))]

(* ---- Edits --------------------------------------------------------------- *)
IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x ELSE 0

(* f extended with a copy of the subtree of src whose parent is p; the copy *)
(* of its k-th node (in document order) is node Len(f)+k.                   *)
CopyTree(f, src, p) ==
    LET ord == Order(f, src)
        base == Len(f)
        pos(x) == base + IndexIn(ord, x)
    IN f \o Tup([k \in 1..Len(ord) |->
              LET o == f[ord[k]]
              IN [o EXCEPT !.p = IF k = 1 THEN p ELSE pos(o.p),
                           !.c = MapSeq(o.c, pos), !.a = MapSeq(o.a, pos)]])

InsertAtPos(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

AppendChild(f, a, b) ==
    LET new == Len(f) + 1 IN [CopyTree(f, b, a) EXCEPT ![a].c = Append(@, new)]

InsertSibling(f, a, b, off) ==      \* off 0: before a, 1: after a
    LET p == f[a].p
        i == IF p = 0 THEN 0 ELSE IndexIn(f[p].c, a)
    IN IF i = 0 THEN f
       ELSE [CopyTree(f, b, p) EXCEPT ![p].c = InsertAtPos(@, i + off, Len(f) + 1)]

DeleteChild(f, a, b) ==
    IF IndexIn(f[a].c, b) = 0 THEN f
    ELSE [f EXCEPT ![a].c = Without(@, b), ![b].p = 0]

ReplaceWith(f, a, b) ==
    LET p == f[a].p IN
    IF p = 0 THEN f ELSE DeleteChild(InsertSibling(f, a, b, 0), p, a)

SetAttribute(f, a, n, v) ==
    LET old == FirstWhere(f[a].a, LAMBDA k : f[k].n = n)
        new == Len(f) + 1
        g == Append(f, Node("attr", n, v, a))
    IN IF old = 0 THEN [g EXCEPT ![a].a = Append(@, new)]
       ELSE [g EXCEPT ![a].a = [i \in 1..Len(@) |-> IF @[i] = old THEN new ELSE @[i]], ![old].p = 0]

DeleteAttribute(f, a, n) ==
    LET old == FirstWhere(f[a].a, LAMBDA k : f[k].n = n)
    IN IF old = 0 THEN f ELSE [f EXCEPT ![a].a = Without(@, old), ![old].p = 0]

(* Letting go.  A tree lives as long as some handle to its root is held: a  *)
(* node holds its children and attributes, not its parent.  When only nodes *)
(* below a are still held, a is the root of its own tree and the rest is    *)
(* gone; ids of gone nodes are not used again.                              *)
Gone == Node("gone", <<>>, <<>>, 0)
Live(f, x) == f[x].t # "gone"
KeepOnly(f, a) ==
    LET own == Order(f, a)  all == Order(f, RootOf(f, a))
        mine(x) == IndexIn(own, x) # 0
    IN Tup([x \in 1..Len(f) |-> IF x = a THEN [f[x] EXCEPT !.p = 0]
                                ELSE IF IndexIn(all, x) # 0 /\ ~mine(x) THEN Gone ELSE f[x]])

(* What a callback of each_node does to node n (o.act, o.b).  The nodes are *)
(* those selected before the first call.                                    *)
KeyK == S("k")  ValV == S("v")
Visit(f, n, o) ==
    CASE o.act = "delete"  -> IF f[n].p = 0 THEN f ELSE DeleteChild(f, f[n].p, n)
      [] o.act = "set"     -> IF f[n].t = "elem" THEN SetAttribute(f, n, KeyK, ValV) ELSE f
      [] o.act = "append"  -> IF f[n].t \in {"elem", "doc"} THEN AppendChild(f, n, o.b) ELSE f
      [] o.act = "next"    -> InsertSibling(f, n, o.b, 1)
      [] o.act = "replace" -> ReplaceWith(f, n, o.b)
VisitAll(f, ns, o) == FoldLeft(LAMBDA g, n : Visit(g, n, o), f, ns)

(* ---- Well-formedness of a forest (invariant of every reachable state) ---- *)
WellFormed(f) ==
    \A x \in 1..Len(f) :
       /\ \A i \in 1..Len(f[x].c) : f[f[x].c[i]].p = x /\ f[f[x].c[i]].t \notin {"attr", "doc"}
       /\ \A i \in 1..Len(f[x].a) : f[f[x].a[i]].p = x /\ f[f[x].a[i]].t = "attr"
       /\ \A i, j \in 1..Len(f[x].c) : i # j => f[x].c[i] # f[x].c[j]
       /\ \A i, j \in 1..Len(f[x].a) : i # j => f[x].a[i] # f[x].a[j]
       /\ f[x].p # 0 => \/ IndexIn(f[f[x].p].c, x) # 0
                        \/ IndexIn(f[f[x].p].a, x) # 0
       /\ f[x].t \notin {"doc", "elem"} => f[x].c = <<>>
       /\ f[x].t # "elem" => f[x].a = <<>>
       /\ x \notin {f[x].c[i] : i \in 1..Len(f[x].c)}
Acyclic(f) == \A x \in 1..Len(f) : LET RECURSIVE up(_, _)
                                      up(y, n) == IF y = 0 THEN TRUE ELSE n > 0 /\ up(f[y].p, n - 1)
                                  IN up(x, Len(f))
=============================================================================
