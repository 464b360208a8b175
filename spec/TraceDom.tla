----------------------------- MODULE TraceDom -----------------------------
(* Conformance of recorded executions with Sax and Dom.                    *)
(* The trace file holds sessions, one JSON object per line; a session is a *)
(* sequence of calls on the library with what was observed after each:     *)
(*   k="sax": text, tokens read one by one, how it ended                   *)
(*   k="dom": text, the tree, per-node views, the tree after re-parsing    *)
(*   k="app": a file given to the sample program, what it printed, its exit *)
(*   k="mut": two texts, a history of edits with the whole state after it  *)
(* Each event is one action below, enabled when an event of that kind is   *)
(* next; the action computes the successor state with the operators of the *)
(* specification and compares the observation with it.                     *)
EXTENDS XEval, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES sid,   \* which session
          vPos,     \* events consumed
          vState      \* state of the specified system
vars == <<sid, vPos, vState>>

STOP == 1000000
E == Trace[sid]

(* Verdict of one event: "" accepted, otherwise what deviates.             *)
Say(v, w) == IF v = "" THEN TRUE ELSE PrintT(<<"@@", v, sid, vPos, w>>)
Goto(v, new) == /\ vState' = new
                /\ vPos' = IF v = "" THEN vPos + 1 ELSE STOP
                /\ UNCHANGED sid

(* ---- sax --------------------------------------------------------------- *)
ReadToken ==
    /\ E.k = "sax" /\ vPos < Len(E.toks)
    /\ LET r == SaxStep(vState.sx)
           v == IF r.tok.k = "OOM" THEN "OOM"
                ELSE IF r.tok = E.toks[vPos + 1] THEN "" ELSE "MISMATCH"
       IN Say(v, r.tok) /\ Goto(v, [sx |-> r.s])
EndTokens ==
    /\ E.k = "sax" /\ vPos = Len(E.toks)
    /\ LET r == SaxStep(vState.sx)
           v == IF r.tok.k = "OOM" THEN "OOM"
                ELSE IF r.tok.k = "EOF" /\ E.end = "eof" THEN ""
                ELSE IF r.tok.k = "ERR" /\ E.end = "err" THEN "" ELSE "MISMATCH"
       IN Say(v, r.tok) /\ Goto(v, [sx |-> r.s])

(* ---- dom --------------------------------------------------------------- *)
(* Parsed documents: node ids are positions in document order, because the *)
(* builder numbers nodes in the order in which their markup starts.        *)
Obs(nd) == [t |-> nd.t, n |-> nd.n, v |-> nd.v, p |-> nd.p, c |-> nd.c, a |-> nd.a]
SameForest(f, nodes) == Len(f) = Len(nodes) /\ \A i \in 1..Len(f) : f[i] = nodes[i]
FirstDiff(f, nodes) ==
    IF Len(f) # Len(nodes) THEN <<"count", Len(f)>>
    ELSE LET i == CHOOSE i \in 1..Len(f) : f[i] # nodes[i] IN <<i, f[i]>>

Load ==
    /\ E.k = "dom" /\ vPos = 0
    /\ LET d == NewDocument(E.txt)
           v == IF d.res = "oom" THEN "OOM"
                ELSE IF (d.res = "ok") # E.ok THEN "MISMATCH"
                ELSE IF d.res = "err" THEN "DONE"
                ELSE IF SameForest(d.f, E.nodes) THEN "" ELSE "MISMATCH"
       IN /\ CASE v = "MISMATCH" -> Say(v, IF d.res = "err" \/ ~E.ok THEN <<d.res>> ELSE FirstDiff(d.f, E.nodes))
               [] v = "OOM" -> Say(v, "")
               [] OTHER -> TRUE
          /\ Goto(v, [f |-> d.f])

ViewOk(f, x, w) ==
    CASE w.ts # ToText(f, x) -> "ts" [] w.ps # ToPretty(f, x) -> "ps"
      [] w.ix # InnerXml(f, x) -> "ix" [] w.ln # LocalName(f[x].n) -> "ln"
      [] w.sn # SpaceName(f[x].n) -> "sn" [] w.ns # NsUri(f, x) -> "ns"
      [] w.db # Display(f, x) -> "db" [] w.rt # RootOf(f, x) -> "rt"
      [] w.re # RootElement(f, x) -> "re" [] w.fc # FirstChild(f, x) -> "fc"
      [] w.nc # Tup([k \in 1..(Len(f[x].c) + 1) |-> NthChild(f, x, k - 1)]) -> "nc"
      [] w.av # MapSeq(f[x].a, LAMBDA a : AttrVal(f, x, f[a].n)) -> "av"
      [] OTHER -> ""
View ==
    /\ E.k = "dom" /\ E.ok /\ 1 <= vPos /\ vPos <= Len(E.nodes)
    /\ LET w == ViewOk(vState.f, vPos, E.views[vPos])
           v == IF w = "" THEN "" ELSE "MISMATCH"
       IN /\ Say(v, w) /\ vState' = vState /\ vPos' = vPos + 1 /\ UNCHANGED sid

Reparse ==
    /\ E.k = "dom" /\ E.ok /\ vPos = Len(E.nodes) + 1
    /\ LET v == IF ~E.rep.ok THEN "MISMATCH"
                ELSE IF Shape(E.rep.nodes, 1) # MergedShape(vState.f, 1) THEN "MISMATCH"
                ELSE IF E.rep.ts # ToText(vState.f, 1) /\ E.rep.ts # ToText(E.rep.nodes, 1) THEN "MISMATCH"
                ELSE ""
       IN Say(v, "reparse") /\ Goto(v, vState)

(* ---- app --------------------------------------------------------------- *)
(* The sample program pretty-prints the document in a file; a file that    *)
(* cannot be read as text, or is no document, makes it fail, silent on     *)
(* standard output.                                                        *)
AppResult(e) ==
    IF e.file # "text" THEN [s |-> "fail"]
    ELSE LET d == NewDocument(e.txt) IN
         CASE d.res = "oom" -> [s |-> "oom"] [] d.res = "err" -> [s |-> "fail"]
           [] OTHER -> [s |-> "done", out |-> ToPretty(d.f, 1) \o <<10>>]
RunApp ==
    /\ E.k = "app" /\ vPos = 0
    /\ LET r == AppResult(E)
           v == CASE r.s = "oom" -> "OOM"
                  [] r.s = "fail" -> IF E.rc # 0 /\ E.out = <<>> THEN "" ELSE "MISMATCH"
                  [] OTHER -> IF E.rc = 0 /\ E.out = r.out THEN "" ELSE "MISMATCH"
       IN Say(v, r) /\ Goto(v, vState)

(* ---- mut --------------------------------------------------------------- *)
Join(f, g) == LET b == Len(f)
                  sh(k) == IF k = 0 THEN 0 ELSE k + b
              IN f \o Tup([i \in 1..Len(g) |-> [g[i] EXCEPT !.p = sh(@), !.c = MapSeq(@, sh), !.a = MapSeq(@, sh)]])

Roots(f) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : f[i].p = 0 /\ Live(f, i))
FirstText(f) == LET k == FirstWhere([i \in 1..Len(f) |-> i], LAMBDA i : Live(f, i)) IN IF k = 0 THEN <<>> ELSE ToText(f, k)
LookOk(f, o) ==
    CASE ~SameForest(f, o.nodes) -> FirstDiff(f, o.nodes)
      [] o.roots # Tup([i \in 1..Len(f) |-> RootOf(f, i)]) -> <<"roots">>
      [] o.ord # MapSeq(Roots(f), LAMBDA r : Order(f, r)) -> <<"order", MapSeq(Roots(f), LAMBDA r : Order(f, r))>>
      [] o.qo # MapSeq(Roots(f), LAMBDA r : Order(f, r)) -> <<"query", MapSeq(Roots(f), LAMBDA r : Order(f, r))>>
      [] o.ts # FirstText(f) -> <<"text", FirstText(f)>>
      [] OTHER -> <<>>

Start ==
    /\ E.k = "mut" /\ vPos = 0
    /\ LET d1 == NewDocument(E.txt)  d2 == NewDocument(E.txt2)
           f == Join(d1.f, d2.f)
           w == LookOk(f, E.evs[1])
           v == IF w = <<>> THEN "" ELSE "MISMATCH"
       IN Say(v, w) /\ Goto(v, [f |-> f])

Kid == {"elem", "text", "comm", "pi", "decl"}
Legal(f, o) ==
    CASE ~Live(f, o.a) \/ ("b" \in DOMAIN o /\ ~Live(f, o.b)) -> FALSE
      [] o.op \in {"append"} -> f[o.a].t \in {"doc", "elem"} /\ f[o.b].t \in Kid
      [] o.op \in {"prev", "next", "replace"} -> f[o.b].t \in Kid
      [] o.op = "set" -> f[o.a].t = "elem"
      [] OTHER -> TRUE
Apply(f, o) ==
    CASE o.op = "append"  -> AppendChild(f, o.a, o.b)
      [] o.op = "prev"    -> InsertSibling(f, o.a, o.b, 0)
      [] o.op = "next"    -> InsertSibling(f, o.a, o.b, 1)
      [] o.op = "replace" -> ReplaceWith(f, o.a, o.b)
      [] o.op = "delete"  -> DeleteChild(f, o.a, o.b)
      [] o.op = "set"     -> SetAttribute(f, o.a, o.n, o.v)
      [] o.op = "unset"   -> DeleteAttribute(f, o.a, o.n)
      [] o.op = "keep"    -> KeepOnly(f, o.a)
Edit ==
    /\ E.k = "mut" /\ 1 <= vPos /\ vPos < Len(E.evs)
    /\ LET o == E.evs[vPos + 1] IN
       /\ o.op \in {"append", "prev", "next", "replace", "delete", "set", "unset", "keep"}
       /\ IF ~Legal(vState.f, o) THEN Say("OOM", o.op) /\ Goto("OOM", vState)
          ELSE LET g == Apply(vState.f, o)
                   w == IF o.panic THEN <<"panic">> ELSE IF o.look THEN LookOk(g, o) ELSE <<>>
                   v == IF w = <<>> THEN "" ELSE "MISMATCH"
               IN Say(v, w) /\ Goto(v, [f |-> g])

(* each_node whose callback edits the document.                              *)
NodesOf(s) == MapSeq(SelectSeq(s, IsNode), LAMBDA x : x.id)
Each ==
    /\ E.k = "mut" /\ 1 <= vPos /\ vPos < Len(E.evs)
    /\ LET o == E.evs[vPos + 1] IN
       /\ o.op = "each"
       /\ LET r == IF Legal(vState.f, o) THEN Query(vState.f, o.a, o.x) ELSE [s |-> "oom"]
              g == IF IsOk(r) THEN VisitAll(vState.f, NodesOf(r.v), o) ELSE vState.f
              w == IF r.s = "oom" THEN <<"oom">>
                   ELSE IF o.panic THEN <<"panic">>
                   ELSE IF o.ok # IsOk(r) \/ o.seen # (IF IsOk(r) THEN NodesOf(r.v) ELSE <<>>) THEN <<"visited", IF IsOk(r) THEN NodesOf(r.v) ELSE <<r.s>> >>
                   ELSE IF o.look THEN LookOk(g, o) ELSE <<>>
              v == IF w = <<>> THEN "" ELSE IF w[1] = "oom" THEN "OOM" ELSE "MISMATCH"
          IN Say(v, w) /\ Goto(v, [f |-> g])

(* A query on the edited forest.                                             *)
ItemOk(f, i, x) == IF IsNode(x) THEN i.n = x.id
                   ELSE i.n = -1 /\ LET t == ItemText(f, x) IN ~IsOk(t) \/ t.v = i.s
QueryOk(f, r, e) ==
    CASE r.s = "oom" -> "OOM"
      [] IsOk(r) # e.ok -> "MISMATCH"
      [] ~e.ok -> ""
      [] Len(r.v) = Len(e.items) /\ \A i \in 1..Len(r.v) : ItemOk(f, e.items[i], r.v[i]) -> ""
      [] OTHER -> "MISMATCH"
Ask ==
    /\ E.k = "mut" /\ 1 <= vPos /\ vPos < Len(E.evs)
    /\ LET o == E.evs[vPos + 1] IN
       /\ o.op = "query"
       /\ LET r == Query(vState.f, o.a, o.x)
              w == IF o.panic THEN "MISMATCH" ELSE QueryOk(vState.f, r, o)
          IN /\ Say(w, IF IsOk(r) THEN <<"ask", MapSeq(r.v, LAMBDA y : IF IsNode(y) THEN y.id ELSE -1)>> ELSE <<"ask", r.s>>)
             /\ Goto(IF o.panic THEN "STOP" ELSE "", vState)

(* -------------------------------------------------------------------------- *)
Init == /\ sid \in 1..Len(Trace) /\ vPos = 0
        /\ vState = IF Trace[sid].k = "sax" THEN [sx |-> SaxInit(Trace[sid].txt)] ELSE [f |-> <<>>]
Next == ReadToken \/ EndTokens \/ RunApp \/ Load \/ View \/ Reparse \/ Start \/ Edit \/ Each \/ Ask
Spec == Init /\ [][Next]_vars

(* Invariants of the specified system, evaluated along every trace.        *)
TreeInv == E.k = "sax" \/ (WellFormed(vState.f) /\ Acyclic(vState.f))
=============================================================================
