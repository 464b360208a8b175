------------------------------- MODULE MCDom -------------------------------
(* Model of documents under edits, explored exhaustively to a bounded depth *)
(* from small start documents.  Checked on every reachable forest:          *)
(*   the links are consistent and acyclic; document order is a total order  *)
(*   of each tree with parents first and subtrees contiguous; the text form *)
(*   denotes the tree again and is a fixed point; the axes partition each   *)
(*   tree and are inverse in pairs.                                         *)
(* Checked on every step: what the edit changes, and that nothing else does.*)
(* Each step is printed as the history leading to it; these histories are   *)
(* replayed on the real code (P05, P06).                                    *)
EXTENDS XEval, TLC, Json, IOUtils
CONSTANTS DEPTH, MAXNODES, EMIT

Starts == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, vForest, vDocs, vHist
vars == <<sid, vForest, vDocs, vHist>>
View == <<sid, vForest, vDocs>>

Join(g1, g2) == LET b == Len(g1)
                    sh(k) == IF k = 0 THEN 0 ELSE k + b
                IN g1 \o Tup([i \in 1..Len(g2) |-> [g2[i] EXCEPT !.p = sh(@), !.c = MapSeq(@, sh), !.a = MapSeq(@, sh)]])

Kid == {"elem", "text", "comm", "pi", "decl"}
Nodes == {i \in 1..Len(vForest) : Live(vForest, i)}
Kids == {i \in Nodes : vForest[i].t \in Kid}
Elems == {i \in Nodes : vForest[i].t = "elem"}
Targets == {i \in Nodes : vForest[i].t # "attr"}
Fits(b) == Len(vForest) + Len(Order(vForest, b)) <= MAXNODES

Do(o, g) == /\ vForest' = g /\ vDocs' = vDocs + 1 /\ vHist' = Append(vHist, o) /\ UNCHANGED sid
            /\ EMIT => PrintT(<<"@@", "HIST", sid, vDocs', ToJson(vHist')>>)
Op2(op, a, b) == [op |-> op, a |-> a, b |-> b]

Append_(a, b) == Fits(b) /\ vForest[a].t \in {"elem", "doc"} /\ Do(Op2("append", a, b), AppendChild(vForest, a, b))
Prev(a, b)    == Fits(b) /\ Do(Op2("prev", a, b), InsertSibling(vForest, a, b, 0))
Next_(a, b)   == Fits(b) /\ Do(Op2("next", a, b), InsertSibling(vForest, a, b, 1))
Replace(a, b) == Fits(b) /\ Do(Op2("replace", a, b), ReplaceWith(vForest, a, b))
Delete(a, b)  == Do(Op2("delete", a, b), DeleteChild(vForest, a, b))
Set(a, n, v)  == Len(vForest) < MAXNODES /\ Do([op |-> "set", a |-> a, n |-> n, v |-> v], SetAttribute(vForest, a, n, v))
Unset(a, n)   == Do([op |-> "unset", a |-> a, n |-> n], DeleteAttribute(vForest, a, n))

LetGo(a)      == vForest[a].p # 0 /\ Do([op |-> "keep", a |-> a], KeepOnly(vForest, a))

Names == {S("x"), S("y")}
Vals == {S("1"), S("<&\"")}

Init == /\ sid \in 1..Len(Starts) /\ vDocs = 0 /\ vHist = <<>>
        /\ vForest = Join(NewDocument(Starts[sid].txt).f, NewDocument(Starts[sid].txt2).f)
Next == /\ vDocs < DEPTH
        /\ \/ \E a \in Targets, b \in Kids : Append_(a, b) \/ Prev(a, b) \/ Next_(a, b) \/ Replace(a, b)
           \/ \E a \in Nodes, b \in Nodes : (vForest[b].p = a \/ b % 3 = 1) /\ Delete(a, b)
           \/ \E a \in Elems, n \in Names, v \in Vals : Set(a, n, v)
           \/ \E a \in Elems, n \in Names : Unset(a, n)
           \/ \E a \in Nodes : LetGo(a)
Spec == Init /\ [][Next]_vars

(* ---- invariants ----------------------------------------------------------- *)
Links == WellFormed(vForest) /\ Acyclic(vForest)

Roots == {i \in Nodes : vForest[i].p = 0}
Dist(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Ran(s) == {s[i] : i \in 1..Len(s)}
OrderIsTotal ==
    \A r \in Roots :
       LET o == Order(vForest, r)
           at == [x \in Ran(o) |-> CHOOSE i \in 1..Len(o) : o[i] = x]
       IN /\ Dist(o)
          /\ Ran(o) = {x \in Nodes : RootOf(vForest, x) = r}
          /\ \A x \in Ran(o) : x # r => at[vForest[x].p] < at[x]                     \* parents first
          /\ \A x \in Ran(o) : SubSeq(o, at[x], at[x] + Len(Order(vForest, x)) - 1) = Order(vForest, x)   \* subtrees contiguous
          /\ \A x \in Ran(o) : \A i \in 1..Len(vForest[x].a) : at[vForest[x].a[i]] = at[x] + i     \* attributes next
          /\ \A x \in Ran(o) : \A i, j \in 1..Len(vForest[x].c) : i < j => at[vForest[x].c[i]] < at[vForest[x].c[j]]

TextDenotesTree ==
    \A r \in Roots : vForest[r].t \in {"doc", "elem"} =>
       LET t == ToText(vForest, r)  e == NewDocument(t) IN
       /\ e.res = "ok"
       /\ IF vForest[r].t = "doc" THEN Shape(e.f, 1) = MergedShape(vForest, r) ELSE Shape(e.f, 2) = MergedShape(vForest, r)
       /\ ToText(e.f, 1) = t

Env(y) == [f |-> vForest, ord |-> Order(vForest, RootOf(vForest, y)), it |-> <<>>, pos |-> 0, last |-> 0, vars |-> <<>>]
Ax(y, ax) == Ran(Axis(Env(y), y, ax))
AxesPartition ==
    \A y \in Nodes : vForest[y].t # "attr" =>
       LET parts == <<{y}, Ax(y, "ancestor"), Ax(y, "descendant"), Ax(y, "preceding"), Ax(y, "following")>> IN
       /\ UNION Ran(parts) = {z \in Nodes : RootOf(vForest, z) = RootOf(vForest, y) /\ vForest[z].t # "attr"}
       /\ \A i, j \in 1..5 : i # j => parts[i] \cap parts[j] = {}
Inv2(a, b) == \A y, z \in Nodes : vForest[y].t # "attr" /\ vForest[z].t # "attr" => (z \in Ax(y, a) <=> y \in Ax(z, b))
AxesInverse == /\ Inv2("child", "parent") /\ Inv2("descendant", "ancestor")
               /\ Inv2("descendant-or-self", "ancestor-or-self")
               /\ Inv2("following", "preceding") /\ Inv2("following-sibling", "preceding-sibling")
               /\ \A y, z \in Nodes : z \in Ax(y, "attribute") <=> (vForest[z].t = "attr" /\ vForest[z].p = y)
               /\ \A y \in Nodes : Ax(y, "following-sibling") \subseteq Ax(y, "following")
               /\ \A y \in Nodes : Ax(y, "preceding-sibling") \subseteq Ax(y, "preceding")

(* ---- steps ----------------------------------------------------------------- *)
O == vHist'[Len(vHist')]
Old(x) == vForest'[x] = vForest[x]
OthersSame(S0) == \A x \in Nodes \ S0 : Old(x)
Whole(x) == Shape(vForest, x)      \* the subtree of x as a value
CopyMade(b) == LET new == Len(vForest) + 1 IN
    /\ Len(vForest') = Len(vForest) + Len(Order(vForest, b))
    /\ Shape(vForest', new) = Whole(b)                                    \* deep
    /\ \A x \in new..Len(vForest') : \A y \in Ran(vForest'[x].c) \cup Ran(vForest'[x].a) : y >= new   \* independent
StepEffect ==
    CASE O.op = "append" -> CopyMade(O.b) /\ OthersSame({O.a})
                            /\ vForest'[O.a].c = Append(vForest[O.a].c, Len(vForest) + 1) /\ vForest'[O.a].a = vForest[O.a].a
      [] O.op \in {"prev", "next", "replace"} ->
           LET p == vForest[O.a].p IN
           IF p = 0 THEN vForest' = vForest
           ELSE LET i == IndexIn(vForest[p].c, O.a)
                    l == SubSeq(vForest[p].c, 1, i - 1)  r == SubSeq(vForest[p].c, i + 1, Len(vForest[p].c))  new == Len(vForest) + 1 IN
                /\ CopyMade(O.b)
                /\ vForest'[p].c = CASE O.op = "prev" -> l \o <<new, O.a>> \o r
                               [] O.op = "next" -> l \o <<O.a, new>> \o r
                               [] O.op = "replace" -> l \o <<new>> \o r
                /\ OthersSame(IF O.op = "replace" THEN {p, O.a} ELSE {p})
                /\ O.op = "replace" => vForest'[O.a].p = 0 /\ Shape(vForest', O.a) = Shape(vForest, O.a)
      [] O.op = "delete" ->
           IF vForest[O.b].p = O.a /\ vForest[O.b].t # "attr"
           THEN /\ vForest'[O.b].p = 0 /\ Shape(vForest', O.b) = Whole(O.b) /\ RootOf(vForest', O.b) = O.b
                /\ O.b \notin Ran(vForest'[O.a].c) /\ Len(vForest'[O.a].c) = Len(vForest[O.a].c) - 1 /\ OthersSame({O.a, O.b})
           ELSE vForest' = vForest
      [] O.op = "set" ->
           LET names(g) == MapSeq(g[O.a].a, LAMBDA k : g[k].n)
               has == \E i \in 1..Len(vForest[O.a].a) : vForest[vForest[O.a].a[i]].n = O.n IN
           /\ AttrVal(vForest', O.a, O.n) = O.v
           /\ names(vForest') = IF has THEN names(vForest) ELSE Append(names(vForest), O.n)
           /\ \A n \in Names \ {O.n} : AttrVal(vForest', O.a, n) = AttrVal(vForest, O.a, n)
           /\ vForest'[O.a].c = vForest[O.a].c
           /\ \A x \in Nodes : x # O.a /\ vForest[x].p # O.a => Old(x)
      [] O.op = "unset" ->
           /\ AttrVal(vForest', O.a, O.n) = NOVAL
           /\ \A n \in Names \ {O.n} : AttrVal(vForest', O.a, n) = AttrVal(vForest, O.a, n)
           /\ vForest'[O.a].c = vForest[O.a].c
           /\ \A x \in Nodes : x # O.a /\ vForest[x].p # O.a => Old(x)
      [] O.op = "keep" ->           \* the tree of a is the old subtree of a; nothing else of its old tree is left; other trees are as they were
           /\ vForest'[O.a].p = 0 /\ Shape(vForest', O.a) = Whole(O.a) /\ Order(vForest', O.a) = Order(vForest, O.a)
           /\ \A x \in Nodes : IF RootOf(vForest, x) # RootOf(vForest, O.a) THEN Old(x)
                              ELSE Live(vForest', x) <=> x \in Ran(Order(vForest, O.a))
Steps == [][StepEffect]_vars
=============================================================================
