------------------------------ MODULE TraceXp ------------------------------
(* Conformance of recorded queries with XEval.  A session holds a document  *)
(* as observed (nodes, in document order), a context node and a list of     *)
(* queries with their outcomes.                                             *)
EXTENDS XEval, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, vPos
vars == <<sid, vPos>>
E == Trace[sid]
F == E.nodes
Q == E.qs[vPos + 1]

Say(v, w) == IF v = "" THEN TRUE ELSE PrintT(<<"@@", v, sid, vPos, w>>)

(* What the query prints: node number, or text of the item.                 *)
Shown(v, i) == IF IsNode(v[i]) THEN Ok([n |-> v[i].id, s |-> <<>>])
               ELSE Then(ItemText(F, v[i]), LAMBDA t : Ok([n |-> -1, s |-> t]))
(* Function items have no text; only their number is compared.              *)
ItemsOk(v, its) ==
    IF Len(v) # Len(its) THEN "MISMATCH"
    ELSE LET rs == {LET r == Shown(v, i) IN IF ~IsOk(r) THEN "OOM" ELSE IF r.v = its[i] THEN "" ELSE "MISMATCH" : i \in 1..Len(v)} IN
         IF "MISMATCH" \in rs THEN "MISMATCH" ELSE IF "OOM" \in rs THEN "OOM" ELSE ""

(* The observed document must be a tree before it can be queried.           *)
Sane == /\ \A i \in 1..Len(F) : /\ F[i].p \in 0..Len(F)
                                /\ \A k \in 1..Len(F[i].c) : F[i].c[k] \in 1..Len(F)
                                /\ \A k \in 1..Len(F[i].a) : F[i].a[k] \in 1..Len(F)
        /\ WellFormed(F) /\ Acyclic(F)

(* The other ways to ask the same query: nodes of the value, the first of   *)
(* them, one call per node, the text of the whole sequence, a second time.  *)
MethodsOk ==
    LET ns == SelectSeq(MapSeq(Q.items, LAMBDA i : i.n), LAMBDA k : k # -1) IN
    CASE Q.nsok # Q.ok \/ Q.ns # ns -> "get_nodeset"
      [] Q.fn # (IF ns = <<>> THEN 0 ELSE ns[1]) -> "get_first_node"
      [] Q.enok # Q.ok \/ Q.en # ns -> "each_node"
      [] Q.ok2 # Q.ok \/ Q.items2 # Q.items -> "second evaluation"
      [] OTHER -> ""
TextOk(r) == IF ~IsOk(r) THEN TRUE ELSE LET t == SeqText(F, r.v) IN ~IsOk(t) \/ t.v = Q.ts

(* An error is one of syntax exactly when the grammar does not derive the   *)
(* text, and never one the library blames on itself.                        *)
ClassOk(e) == CASE ~E.cls -> "" [] Q.c = "internal" -> "internal error"
                [] e.k \notin {"ERR", "OOM", "UNIMPL"} /\ Q.c = "syntax" -> "no syntax error"
                [] e.k = "ERR" /\ ~Q.ok /\ Q.c # "syntax" -> "syntax error" [] OTHER -> ""
Ask ==
    /\ vPos < Len(E.qs)
    /\ vPos = 0 => Sane
    /\ LET e == ParseX(Q.x)
           r == QueryOf(F, E.ctx, e)
           c == ClassOk(e)
           m == IF c # "" THEN c ELSE IF E.full THEN MethodsOk ELSE ""
           v == IF m # "" THEN "MISMATCH"
                ELSE IF r.s = "oom" THEN "OOM"
                ELSE IF IsOk(r) # Q.ok THEN "MISMATCH"
                ELSE IF ~Q.ok THEN ""
                ELSE IF E.full /\ ~TextOk(r) THEN "MISMATCH"
                ELSE ItemsOk(r.v, Q.items)
       IN Say(v, IF v = "OOM" THEN "" ELSE IF m # "" THEN m ELSE IF ~IsOk(r) THEN r.s ELSE [i \in 1..Len(r.v) |-> Shown(r.v, i)])
    /\ vPos' = vPos + 1 /\ UNCHANGED sid
Unchanged ==            \* after all queries the document is what it was
    /\ E.full /\ vPos = Len(E.qs)
    /\ Say(IF E.same THEN "" ELSE "MISMATCH", "document")
    /\ vPos' = vPos + 1 /\ UNCHANGED sid
NoTree == /\ vPos = 0 /\ ~Sane
          /\ Say("MISMATCH", "document")
          /\ vPos' = 1000000 /\ UNCHANGED sid

Init == sid \in 1..Len(Trace) /\ vPos = 0
Next == Ask \/ Unchanged \/ NoTree
Spec == Init /\ [][Next]_vars
TypeOK == sid \in 1..Len(Trace) /\ vPos \in Nat
=============================================================================
