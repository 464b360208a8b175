------------------------------ MODULE DomGen ------------------------------
(* Generates histories of edits from the specification: session s gives    *)
(* two documents and a list of random numbers; every group of four numbers *)
(* chooses one edit among those legal in the current state.  The histories *)
(* are printed, replayed on the real code, and validated with TraceDom.    *)
EXTENDS XEval, TLC, Json, IOUtils

Ses == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, vPos, vForest, vHist
vars == <<sid, vPos, vForest, vHist>>

Join(g1, g2) == LET b == Len(g1)
                    sh(k) == IF k = 0 THEN 0 ELSE k + b
                IN g1 \o Tup([i \in 1..Len(g2) |-> [g2[i] EXCEPT !.p = sh(@), !.c = MapSeq(@, sh), !.a = MapSeq(@, sh)]])

PickAt(s, r) == s[(r % Len(s)) + 1]
IdsOf(P(_)) == SelectSeq([i \in 1..Len(vForest) |-> i], LAMBDA i : Live(vForest, i) /\ P(i))
AllKids == IdsOf(LAMBDA i : vForest[i].t \in {"elem", "text", "comm", "pi", "decl"})
AllElems == IdsOf(LAMBDA i : vForest[i].t = "elem")
Attached == IdsOf(LAMBDA i : vForest[i].p # 0 /\ vForest[i].t # "attr")
Parents == IdsOf(LAMBDA i : vForest[i].t \in {"elem", "doc"})
TreeSize(x) == Len(Order(vForest, x))
SmallOnes == SelectSeq(AllKids, LAMBDA x : Len(vForest) + TreeSize(x) <= Ses[sid].max)

NoOp == [op |-> "none"]
EditOp(op, a, b) == [op |-> op, a |-> a, b |-> b]

(* each_node with an editing callback: what it may insert must fit, and must *)
(* not hold a node that is visited (it would grow with every visit).         *)
NodesOf(s) == MapSeq(SelectSeq(s, IsNode), LAMBDA y : y.id)
EachChoice(r) ==
    LET a == PickAt(IdsOf(LAMBDA i : TRUE), r[2])
        x == PickAt(Ses[sid].eqs, r[3])
        q == Query(vForest, a, x)
        ns == IF IsOk(q) THEN NodesOf(q.v) ELSE <<>>
        fit == SelectSeq(AllKids, LAMBDA b : Len(vForest) + (TreeSize(b) + 1) * Len(ns) <= Ses[sid].max /\ \A i \in 1..Len(ns) : IndexIn(Order(vForest, b), ns[i]) = 0)
        act == r[4] % 6
        e == [op |-> "each", a |-> a, x |-> x, act |-> "delete"]
    IN IF act = 0 /\ Len(vForest) + Len(ns) <= Ses[sid].max THEN [e EXCEPT !.act = "set"]
       ELSE IF act \in 1..3 /\ fit # <<>> THEN [op |-> "each", a |-> a, x |-> x, act |-> <<"append", "next", "replace">>[act], b |-> PickAt(fit, r[4] \div 6)]
       ELSE e

Choice(r) ==
    LET k == (r[1] % (IF Ses[sid].qs = <<>> THEN 21 ELSE 31)) - (IF Ses[sid].eqs # <<>> /\ r[2] % 5 = 0 THEN 100 ELSE 1)
        a == r[2]  b == r[3]
        names == Ses[sid].names  vals == Ses[sid].vals
    IN CASE Parents = <<>> -> NoOp
         [] k < -1 -> EachChoice(r)
         [] k = -1 -> IF Attached = <<>> \/ r[4] % 2 = 0 THEN NoOp ELSE [op |-> "keep", a |-> PickAt(IdsOf(LAMBDA i : vForest[i].p # 0), a)]
         [] k \in 0..3  -> IF SmallOnes = <<>> THEN NoOp ELSE EditOp("append", PickAt(Parents, a), PickAt(SmallOnes, b))
         [] k \in 4..5  -> IF SmallOnes = <<>> \/ Attached = <<>> THEN NoOp ELSE EditOp("prev", PickAt(Attached, a), PickAt(SmallOnes, b))
         [] k \in 6..7  -> IF SmallOnes = <<>> \/ Attached = <<>> THEN NoOp ELSE EditOp("next", PickAt(Attached, a), PickAt(SmallOnes, b))
         [] k \in 8..10 -> IF SmallOnes = <<>> \/ Attached = <<>> THEN NoOp ELSE EditOp("replace", PickAt(Attached, a), PickAt(SmallOnes, b))
         [] k \in 11..13 -> IF Attached = <<>> THEN NoOp ELSE LET x == PickAt(Attached, a) IN EditOp("delete", vForest[x].p, x)
         [] k = 14 -> EditOp("delete", PickAt(IdsOf(LAMBDA i : TRUE), a), PickAt(IdsOf(LAMBDA i : TRUE), b))
         [] k = 15 -> IF SmallOnes = <<>> THEN NoOp ELSE EditOp(PickAt(<<"prev", "next", "replace">>, r[4]), PickAt(IdsOf(LAMBDA i : TRUE), a), PickAt(SmallOnes, b))
         [] k \in 16..18 -> IF AllElems = <<>> \/ Len(vForest) >= Ses[sid].max THEN NoOp
                            ELSE [op |-> "set", a |-> PickAt(AllElems, a), n |-> PickAt(names, b), v |-> PickAt(vals, r[4])]
         [] k >= 20 -> [op |-> "query", a |-> PickAt(IdsOf(LAMBDA i : TRUE), a), x |-> PickAt(Ses[sid].qs, b)]
         [] OTHER -> IF AllElems = <<>> THEN NoOp
                     ELSE LET x == PickAt(AllElems, a)
                          IN [op |-> "unset", a |-> x,
                              n |-> IF vForest[x].a # <<>> /\ r[4] % 4 # 0 THEN vForest[PickAt(vForest[x].a, b)].n ELSE PickAt(names, b)]
Apply(o) ==
    CASE o.op = "append"  -> AppendChild(vForest, o.a, o.b)
      [] o.op = "prev"    -> InsertSibling(vForest, o.a, o.b, 0)
      [] o.op = "next"    -> InsertSibling(vForest, o.a, o.b, 1)
      [] o.op = "replace" -> ReplaceWith(vForest, o.a, o.b)
      [] o.op = "delete"  -> DeleteChild(vForest, o.a, o.b)
      [] o.op = "set"     -> SetAttribute(vForest, o.a, o.n, o.v)
      [] o.op = "unset"   -> DeleteAttribute(vForest, o.a, o.n)
      [] o.op = "keep"    -> KeepOnly(vForest, o.a)
      [] o.op = "each"    -> LET q == Query(vForest, o.a, o.x) IN IF IsOk(q) THEN VisitAll(vForest, NodesOf(q.v), o) ELSE vForest
      [] OTHER -> vForest

Init == /\ sid \in 1..Len(Ses) /\ vPos = 0 /\ vHist = <<>>
        /\ vForest = Join(NewDocument(Ses[sid].txt).f, NewDocument(Ses[sid].txt2).f)
Next == /\ vPos < Len(Ses[sid].rs)
        /\ LET o == Choice(Ses[sid].rs[vPos + 1])
           IN /\ vForest' = Apply(o)
              /\ vHist' = IF o.op = "none" THEN vHist ELSE Append(vHist, o)
        /\ vPos' = vPos + 1 /\ UNCHANGED sid
        /\ vPos' = Len(Ses[sid].rs) => PrintT(<<"@@", "HIST", sid, vPos', ToJson(vHist')>>)
Spec == Init /\ [][Next]_vars
Inv == WellFormed(vForest) /\ Acyclic(vForest)
=============================================================================
