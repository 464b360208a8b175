------------------------------ MODULE XParse ------------------------------
(* Grammar of XPath.  Every P... operator takes the token sequence and a    *)
(* position and returns [e, i]: the expression found and the position after *)
(* it.  e.k = "NIL": nothing of the kind starts here; "ERR": syntax error;  *)
(* "UNIMPL": uses a feature documented as not implemented; "OOM": left open *)
(* by the specification.  Names are recognised as                           *)
(* operators and keywords by the grammar position they stand in.            *)
EXTENDS XLex

R(e, i) == [e |-> e, i |-> i]
ERRX == [k |-> "ERR"]
NILX == [k |-> "NIL"]
OOMX == [k |-> "OOM"]
UNIX == [k |-> "UNIMPL"]
Err(i) == R(ERRX, i)
Nil(i) == R(NILX, i)
Oom(i) == R(OOMX, i)
Uni(i) == R(UNIX, i)
Bad(r) == r.e.k \in {"ERR", "OOM", "UNIMPL"}
IsNil(r) == r.e.k = "NIL"
Need(r) == IF IsNil(r) THEN Err(r.i) ELSE r       \* required

T(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE Sym("EOF")
K(ts, i) == T(ts, i).k
W(ts, i) == T(ts, i).w

Axes == {"ancestor", "ancestor-or-self", "child", "descendant", "descendant-or-self", "following",
         "following-sibling", "namespace", "parent", "preceding", "preceding-sibling", "self", "attribute"}
Reserved == {"array", "attribute", "comment", "document-node", "element", "empty-sequence", "function",
             "if", "item", "map", "namespace-node", "node", "processing-instruction", "schema-attribute",
             "schema-element", "switch", "text", "typeswitch"}
KindWords == {"attribute", "comment", "document-node", "element", "namespace-node", "node",
              "processing-instruction", "schema-attribute", "schema-element", "text"}
ValueCmp == {"eq", "ne", "lt", "le", "gt", "ge", "is"}
GeneralCmp == {"=", "!=", "<", "<=", ">", ">=", "<<", ">>"}

(* The binary operator of a precedence level at a token, "" if none.        *)
OpAt(t, lv) ==
    CASE lv = 2 -> IF t.w = "or" THEN "or" ELSE ""
      [] lv = 3 -> IF t.w = "and" THEN "and" ELSE ""
      [] lv = 4 -> IF t.w \in ValueCmp THEN t.w ELSE IF t.k \in GeneralCmp THEN t.k ELSE ""
      [] lv = 5 -> IF t.k = "||" THEN "||" ELSE ""
      [] lv = 6 -> IF t.w = "to" THEN "to" ELSE ""
      [] lv = 7 -> IF t.k \in {"+", "-"} THEN t.k ELSE ""
      [] lv = 8 -> IF t.k = "*" THEN "*" ELSE IF t.w \in {"div", "idiv", "mod"} THEN t.w ELSE ""
      [] lv = 9 -> IF t.k = "|" \/ t.w = "union" THEN "union" ELSE ""
      [] lv = 10 -> IF t.w \in {"intersect", "except"} THEN t.w ELSE ""
      [] lv = 17 -> IF t.k = "!" THEN "!" ELSE ""
      [] OTHER -> ""
NonAssoc(lv) == lv \in {4, 6}
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]

(* ---- names ---------------------------------------------------------------- *)
ColonAt(v) == Find(v, 1, LAMBDA c : c = 58)
HasColon(v) == ColonAt(v) <= Len(v)
WithPrefix(v, p) == IF HasColon(v) THEN v ELSE p \o v
FnP == S("fn:")  XsP == S("xs:")

(* Known functions: qualified name -> set of arities (99: two or more).      *)
FnArity ==
    LET F(n, ar) == [n |-> S("fn:") \o S(n), ar |-> ar, s |-> n]
        G(n, ar) == [n |-> S(n), ar |-> ar, s |-> n]
    IN <<F("nilled", {0, 1}), F("string", {0, 1}), F("data", {0, 1}), F("number", {0, 1}), F("string-length", {0, 1}),
         F("normalize-space", {0, 1}), F("name", {0, 1}), F("local-name", {0, 1}), F("namespace-uri", {0, 1}),
         F("lang", {1, 2}), F("root", {0, 1}), F("position", {0}), F("last", {0}), F("for-each", {2}), F("filter", {2}),
         F("abs", {1}), F("ceiling", {1}), F("floor", {1}), F("round", {1}), F("codepoints-to-string", {1}),
         F("string-to-codepoints", {1}), F("compare", {2}), F("codepoint-equal", {2}), F("concat", {99}),
         F("string-join", {1, 2}), F("substring", {2, 3}), F("upper-case", {1}), F("lower-case", {1}), F("translate", {3}),
         F("contains", {2}), F("starts-with", {2}), F("ends-with", {2}), F("substring-before", {2}), F("substring-after", {2}),
         F("true", {0}), F("false", {0}), F("boolean", {1}), F("not", {1}), F("empty", {1}), F("exists", {1}), F("head", {1}),
         F("tail", {1}), F("insert-before", {3}), F("remove", {2}), F("reverse", {1}), F("subsequence", {2, 3}),
         F("index-of", {2}), F("zero-or-one", {1}), F("one-or-more", {1}), F("exactly-one", {1}), F("count", {1}),
         F("avg", {1}), F("max", {1}), F("min", {1}), F("sum", {1, 2}),
         G("map:size", {1}), G("map:keys", {1}), G("map:contains", {2}), G("map:get", {2}),
         G("array:size", {1}), G("array:get", {2}), G("array:flatten", {1})>>
FnNames == {FnArity[i].n : i \in 1..Len(FnArity)}
FnAr == Fast([n \in FnNames |-> (CHOOSE i \in 1..Len(FnArity) : FnArity[i].n = n)])
FnStr(n) == FnArity[FnAr[n]].s          \* as a TLA+ string, without the prefix fn:
(* "ok", "ERR" (no such function of that arity) or "OOM".                    *)
FnCheck(n, ar) == IF n \notin FnNames THEN "ERR"
                  ELSE IF 99 \in FnArity[FnAr[n]].ar THEN (IF ar >= 2 THEN "ok" ELSE "OOM")
                  ELSE IF ar \in FnArity[FnAr[n]].ar THEN "ok" ELSE "ERR"

RECURSIVE PExpr(_, _), PSingle(_, _), PLevel(_, _, _), PLoop(_, _, _), PUnary(_, _), PPath(_, _), PSteps(_, _),
          PStep(_, _), PPreds(_, _, _), PPost(_, _), PPrimary(_, _), PArgs(_, _), PSeqType(_, _), PItemType(_, _),
          PKind(_, _), PList(_, _, _), PArrow(_, _), PMapEntries(_, _, _), PParams(_, _, _), PTypes(_, _, _), PBinds(_, _, _, _)

(* Expr: one or more ExprSingle separated by commas.                         *)
PExpr(ts, i) ==
    LET r == PSingle(ts, i) IN
    IF Bad(r) \/ IsNil(r) \/ K(ts, r.i) # "," THEN r
    ELSE LET l == PList(ts, r.i, <<r.e>>) IN
         IF Bad(l) THEN l ELSE R([k |-> "seq", es |-> l.e.es], l.i)
PList(ts, i, acc) ==         \* ("," ExprSingle)*
    IF K(ts, i) # "," THEN R([k |-> "list", es |-> acc], i)
    ELSE LET r == Need(PSingle(ts, i + 1)) IN IF Bad(r) THEN r ELSE PList(ts, r.i, Append(acc, r.e))
(* Expr? closed by a token.                                                  *)
EmptySeq == [k |-> "seq", es |-> <<>>]
POptClosed(ts, i, close) ==
    LET r == PExpr(ts, i)
        e == IF IsNil(r) THEN EmptySeq ELSE r.e
    IN IF Bad(r) THEN r ELSE IF K(ts, r.i) # close THEN Err(r.i) ELSE R(e, r.i + 1)

(* Variable bindings; word "in" or ":=".                                     *)
PBinds(ts, i, word, acc) ==
    IF K(ts, i) # "$" \/ K(ts, i + 1) # "name" THEN Err(i)
    ELSE IF (word = "in" /\ W(ts, i + 2) # "in") \/ (word = ":=" /\ K(ts, i + 2) # ":=") THEN Err(i)
    ELSE LET r == Need(PSingle(ts, i + 3))
             bs == Append(acc, [v |-> T(ts, i + 1).v, e |-> r.e])
         IN IF Bad(r) THEN r
            ELSE IF K(ts, r.i) = "," THEN PBinds(ts, r.i + 1, word, bs)
            ELSE R([k |-> "binds", bs |-> bs], r.i)

PSingle(ts, i) ==
    LET w == W(ts, i) IN
    IF w \in {"for", "let", "some", "every"} /\ K(ts, i + 1) = "$"
    THEN LET b == PBinds(ts, i + 1, IF w = "let" THEN ":=" ELSE "in", <<>>)
             kw == IF w \in {"for", "let"} THEN "return" ELSE "satisfies"
             r == Need(PSingle(ts, b.i + 1))
         IN IF Bad(b) THEN b ELSE IF W(ts, b.i) # kw THEN Err(b.i) ELSE IF Bad(r) THEN r
            ELSE R([k |-> "bind", w |-> w, bs |-> b.e.bs, b |-> r.e], r.i)
    ELSE IF w = "if" /\ K(ts, i + 1) = "("
    THEN LET c == Need(PExpr(ts, i + 2))
             a == Need(PSingle(ts, c.i + 2))
             b == Need(PSingle(ts, a.i + 1))
         IN IF Bad(c) THEN c
            ELSE IF K(ts, c.i) # ")" \/ W(ts, c.i + 1) # "then" THEN Err(c.i)
            ELSE IF Bad(a) THEN a ELSE IF W(ts, a.i) # "else" THEN Err(a.i)
            ELSE IF Bad(b) THEN b ELSE R([k |-> "if", c |-> c.e, a |-> a.e, b |-> b.e], b.i)
    ELSE PLevel(ts, i, 2)

PLevel(ts, i, lv) ==
    CASE lv = 11 -> LET r == PLevel(ts, i, 12)
                        t == Need(PSeqType(ts, r.i + 2)) IN
                    IF Bad(r) \/ IsNil(r) \/ W(ts, r.i) # "instance" \/ W(ts, r.i + 1) # "of" THEN r
                    ELSE IF Bad(t) THEN t ELSE R([k |-> "inst", a |-> r.e, ty |-> t.e], t.i)
      [] lv = 12 -> LET r == PLevel(ts, i, 13)
                        t == Need(PSeqType(ts, r.i + 2)) IN
                    IF Bad(r) \/ IsNil(r) \/ W(ts, r.i) # "treat" \/ W(ts, r.i + 1) # "as" THEN r
                    ELSE IF Bad(t) THEN t ELSE Uni(t.i)
      [] lv \in {13, 14} ->
             LET r == PLevel(ts, i, lv + 1)
                 w == IF lv = 13 THEN "castable" ELSE "cast"
                 q == K(ts, r.i + 3) = "?" IN
             IF Bad(r) \/ IsNil(r) \/ W(ts, r.i) # w \/ W(ts, r.i + 1) # "as" THEN r
             ELSE IF K(ts, r.i + 2) # "name" THEN Err(r.i)
             ELSE IF W(ts, r.i + 2) \in Reserved /\ K(ts, r.i + 3) = "(" THEN Err(r.i)
             ELSE IF W(ts, r.i + 2) # "" THEN Oom(r.i)      \* no type has such a name
             ELSE R([k |-> w, a |-> r.e, n |-> WithPrefix(T(ts, r.i + 2).v, XsP), q |-> q], r.i + (IF q THEN 4 ELSE 3))
      [] lv = 15 -> LET r == PUnary(ts, i) IN IF Bad(r) \/ IsNil(r) THEN r ELSE PArrow(ts, r)
      [] lv = 18 -> PPath(ts, i)
      [] OTHER -> LET r == PLevel(ts, i, lv + 1) IN IF Bad(r) \/ IsNil(r) THEN r ELSE PLoop(ts, r, lv)
PLoop(ts, r, lv) ==
    LET op == OpAt(T(ts, r.i), lv) IN
    IF op = "" THEN r
    ELSE LET b == Need(PLevel(ts, r.i + 1, lv + 1))
             n == R(Bin(op, r.e, b.e), b.i)
         IN IF Bad(b) THEN b ELSE IF NonAssoc(lv) THEN n ELSE PLoop(ts, n, lv)

PUnary(ts, i) ==
    IF K(ts, i) \in {"+", "-"}
    THEN LET r == Need(PUnary(ts, i + 1)) IN
         IF Bad(r) THEN r ELSE R([k |-> "unary", op |-> K(ts, i), a |-> r.e], r.i)
    ELSE PLevel(ts, i, 17)

PArrow(ts, r) ==
    IF K(ts, r.i) # "=>" THEN r
    ELSE IF K(ts, r.i + 1) = "$" /\ K(ts, r.i + 2) = "name"
    THEN LET a == PArgs(ts, r.i + 3) IN
         IF K(ts, r.i + 3) # "(" THEN Err(r.i) ELSE IF Bad(a) THEN a
         ELSE IF \E j \in 1..Len(a.e.es) : a.e.es[j].k = "hole" THEN Oom(r.i)
         ELSE PArrow(ts, R([k |-> "dyn", f |-> [k |-> "var", v |-> T(ts, r.i + 2).v], es |-> <<r.e>> \o a.e.es], a.i))
    ELSE IF K(ts, r.i + 1) = "name"
    THEN LET a == PArgs(ts, r.i + 2)
             n == WithPrefix(T(ts, r.i + 1).v, FnP)
         IN IF K(ts, r.i + 2) # "(" THEN Err(r.i) ELSE IF Bad(a) THEN a
            ELSE IF W(ts, r.i + 1) \in Reserved THEN Err(r.i)
            ELSE LET c == FnCheck(n, Len(a.e.es) + 1)
                     holes == \E j \in 1..Len(a.e.es) : a.e.es[j].k = "hole"
                 IN
                 IF c = "ERR" THEN Err(r.i) ELSE IF c = "OOM" THEN Oom(r.i)
                 ELSE PArrow(ts, R([k |-> IF holes THEN "partial" ELSE "call", n |-> n, es |-> <<r.e>> \o a.e.es], a.i))
    ELSE IF K(ts, r.i + 1) = "(" THEN Oom(r.i)
    ELSE Err(r.i)

(* ---- paths ------------------------------------------------------------------ *)
AnyTest == [k |-> "any"]
DescStep == [k |-> "step", ax |-> "descendant-or-self", t |-> AnyTest, ps |-> <<>>]
PathOf(a, b) == [k |-> "path", a |-> a, b |-> b]
PPath(ts, i) ==
    CASE K(ts, i) = "/" ->
           LET r == PStep(ts, i + 1) IN
           (* "/ cast as", "/ instance of": a step, or an operator after a lone slash *)
           IF W(ts, i + 1) \in {"instance", "treat", "cast", "castable"} /\ W(ts, i + 2) \in {"of", "as"} THEN Oom(i)
           ELSE IF Bad(r) THEN r ELSE IF IsNil(r) THEN R([k |-> "root"], i + 1)
           ELSE PSteps(ts, R(PathOf([k |-> "root"], r.e), r.i))
      [] K(ts, i) = "//" ->
           LET r == Need(PStep(ts, i + 1)) IN
           IF Bad(r) THEN r ELSE PSteps(ts, R(PathOf(PathOf([k |-> "root"], DescStep), r.e), r.i))
      [] OTHER -> LET r == PStep(ts, i) IN IF Bad(r) \/ IsNil(r) THEN r ELSE PSteps(ts, r)
PSteps(ts, r) ==
    IF K(ts, r.i) \notin {"/", "//"} THEN r
    ELSE LET n == Need(PStep(ts, r.i + 1)) IN
         IF Bad(n) THEN n
         ELSE PSteps(ts, R(IF K(ts, r.i) = "/" THEN PathOf(r.e, n.e) ELSE PathOf(PathOf(r.e, DescStep), n.e), n.i))

(* Node test at i for an axis: name test or kind test.                        *)
PNodeTest(ts, i) ==
    LET t == T(ts, i) IN
    CASE t.k = "*" -> R([k |-> "name", p |-> "*", n |-> <<>>], i + 1)
      [] t.k = "wild" -> R([k |-> "name", p |-> IF t.w = "p" THEN "pre" ELSE "loc", n |-> t.v], i + 1)
      [] t.k = "name" /\ K(ts, i + 1) = "(" /\ t.w \in KindWords -> PKind(ts, i)
      [] t.k = "name" -> R([k |-> "name", p |-> "", n |-> t.v], i + 1)
      [] OTHER -> Nil(i)

Step(ax, t, ps) == [k |-> "step", ax |-> ax, t |-> t, ps |-> ps]
PPreds(ts, i, acc) ==
    IF K(ts, i) # "[" THEN R([k |-> "preds", ps |-> acc], i)
    ELSE LET r == Need(PExpr(ts, i + 1)) IN
         IF Bad(r) THEN r ELSE IF K(ts, r.i) # "]" THEN Err(r.i) ELSE PPreds(ts, r.i + 1, Append(acc, r.e))
StepWith(ts, ax, t) ==       \* t: parsed node test; then predicates
    IF Bad(t) THEN t
    ELSE LET p == PPreds(ts, t.i, <<>>) IN IF Bad(p) THEN p ELSE R(Step(ax, t.e, p.e.ps), p.i)

PStep(ts, i) ==
    LET t == T(ts, i) IN
    CASE t.k = "name" /\ t.w \in Axes /\ K(ts, i + 1) = "::" ->
             IF t.w = "namespace" THEN Uni(i) ELSE StepWith(ts, t.w, Need(PNodeTest(ts, i + 2)))
      [] t.k = "@" -> StepWith(ts, "attribute", Need(PNodeTest(ts, i + 1)))
      [] t.k = ".." -> StepWith(ts, "parent", R(AnyTest, i + 1))
      [] t.k \in {"*", "wild"} -> StepWith(ts, "child", PNodeTest(ts, i))
      [] t.k = "name" /\ K(ts, i + 1) = "(" /\ t.w \in KindWords ->
             StepWith(ts, IF t.w \in {"attribute", "schema-attribute"} THEN "attribute" ELSE "child", PKind(ts, i))
      [] t.k = "name" /\ K(ts, i + 1) \notin {"(", "#"} /\ ~(t.w \in {"map", "array"} /\ K(ts, i + 1) = "{") ->
             StepWith(ts, "child", PNodeTest(ts, i))
      [] OTHER -> LET p == PPrimary(ts, i) IN IF Bad(p) \/ IsNil(p) THEN p ELSE PPost(ts, p)

(* ---- kind tests and types --------------------------------------------------- *)
(* i at the word, "(" follows.                                                 *)
PKind(ts, i) ==
    LET w == W(ts, i)
        t == T(ts, i + 2)
        done == K(ts, i + 2) = ")"
        nm == IF t.k = "*" THEN [k |-> "name", p |-> "*", n |-> <<>>] ELSE [k |-> "name", p |-> "", n |-> t.v]
    IN CASE w \in {"node", "text", "comment"} ->
              IF ~done THEN Err(i) ELSE R(IF w = "node" THEN AnyTest ELSE [k |-> "kind", t |-> IF w = "text" THEN "text" ELSE "comm"], i + 3)
         [] w = "processing-instruction" ->
              IF done THEN R([k |-> "pi", any |-> TRUE, n |-> <<>>], i + 3)
              ELSE IF ((t.k = "name" /\ ~HasColon(t.v)) \/ t.k = "str") /\ K(ts, i + 3) = ")" THEN R([k |-> "pi", any |-> FALSE, n |-> t.v], i + 4)
              ELSE IF t.k = "name" /\ HasColon(t.v) THEN Oom(i)
              ELSE Err(i)
         [] w \in {"element", "attribute"} ->
              LET tk == IF w = "element" THEN "elem" ELSE "attr"
                  q == w = "element" /\ K(ts, i + 5) = "?"
              IN IF done THEN R([k |-> "typed", t |-> tk, nm |-> [k |-> "name", p |-> "*", n |-> <<>>], ty |-> <<>>, q |-> TRUE], i + 3)
                 ELSE IF t.k \notin {"*", "name"} THEN (IF t.k = "wild" THEN Oom(i) ELSE Err(i))
                 ELSE IF K(ts, i + 3) = ")" THEN R([k |-> "typed", t |-> tk, nm |-> nm, ty |-> <<>>, q |-> TRUE], i + 4)
                 ELSE IF K(ts, i + 3) = "," /\ K(ts, i + 4) = "name" /\ K(ts, i + (IF q THEN 6 ELSE 5)) = ")"
                 THEN R([k |-> "typed", t |-> tk, nm |-> nm, ty |-> WithPrefix(T(ts, i + 4).v, XsP), q |-> q], i + (IF q THEN 7 ELSE 6))
                 ELSE Err(i)
         [] w = "namespace-node" -> IF ~done THEN Err(i) ELSE R([k |-> "kind", t |-> "nsnode"], i + 3)   \* there is none
         [] w = "document-node" ->
              IF done THEN Uni(i)
              ELSE IF t.w \in {"element", "schema-element"} /\ K(ts, i + 3) = "("
              THEN LET r == PKind(ts, i + 2) IN IF Bad(r) THEN r ELSE IF K(ts, r.i) = ")" THEN Uni(i) ELSE Err(i)
              ELSE Err(i)
         [] OTHER ->                 \* schema-element, schema-attribute
              IF t.k = "name" /\ K(ts, i + 3) = ")" THEN Uni(i) ELSE Err(i)

SeqTy(o, it) == [k |-> "ty", o |-> o, it |-> it]
PSeqType(ts, i) ==
    IF W(ts, i) = "empty-sequence" /\ K(ts, i + 1) = "("
    THEN IF K(ts, i + 2) = ")" THEN R(SeqTy("0", [k |-> "none"]), i + 3) ELSE Err(i)
    ELSE LET r == PItemType(ts, i) IN
         IF Bad(r) \/ IsNil(r) THEN r
         ELSE IF K(ts, r.i) \in {"?", "*", "+"} THEN R(SeqTy(K(ts, r.i), r.e), r.i + 1)
         ELSE R(SeqTy("1", r.e), r.i)
AnyItem == SeqTy("*", [k |-> "item"])
PTypes(ts, i, acc) ==        \* ("," SequenceType)*
    IF K(ts, i) # "," THEN R([k |-> "types", ts |-> acc], i)
    ELSE LET r == Need(PSeqType(ts, i + 1)) IN IF Bad(r) THEN r ELSE PTypes(ts, r.i, Append(acc, r.e))
PItemType(ts, i) ==
    LET t == T(ts, i)  paren == K(ts, i + 1) = "("  star == K(ts, i + 2) = "*" /\ K(ts, i + 3) = ")" IN
    CASE t.k = "name" /\ paren /\ t.w \in KindWords -> PKind(ts, i)
      [] t.k = "name" /\ paren /\ t.w = "item" -> IF K(ts, i + 2) = ")" THEN R([k |-> "item"], i + 3) ELSE Err(i)
      [] t.k = "name" /\ paren /\ t.w = "function" ->
           IF star THEN R([k |-> "anyfn"], i + 4)
           ELSE LET f == PSeqType(ts, i + 2)
                    l == IF IsNil(f) THEN R([k |-> "types", ts |-> <<>>], i + 2) ELSE PTypes(ts, f.i, <<f.e>>)
                    r == Need(PSeqType(ts, l.i + 2))
                IN IF Bad(f) THEN f ELSE IF Bad(l) THEN l
                   ELSE IF K(ts, l.i) # ")" \/ W(ts, l.i + 1) # "as" THEN Err(l.i)
                   ELSE IF Bad(r) THEN r ELSE R([k |-> "fn", ps |-> l.e.ts, r |-> r.e], r.i)
      [] t.k = "name" /\ paren /\ t.w = "map" ->
           IF star THEN R([k |-> "map", key |-> S("xs:anyAtomicType"), v |-> AnyItem], i + 4)
           ELSE IF K(ts, i + 2) # "name" \/ K(ts, i + 3) # "," THEN Err(i)
           ELSE LET r == Need(PSeqType(ts, i + 4)) IN
                IF Bad(r) THEN r ELSE IF K(ts, r.i) # ")" THEN Err(r.i)
                ELSE R([k |-> "map", key |-> WithPrefix(T(ts, i + 2).v, XsP), v |-> r.e], r.i + 1)
      [] t.k = "name" /\ paren /\ t.w = "array" ->
           IF star THEN R([k |-> "arr", v |-> AnyItem], i + 4)
           ELSE LET r == Need(PSeqType(ts, i + 2)) IN
                IF Bad(r) THEN r ELSE IF K(ts, r.i) # ")" THEN Err(r.i) ELSE R([k |-> "arr", v |-> r.e], r.i + 1)
      [] t.k = "name" /\ paren -> Oom(i)
      [] t.k = "name" /\ t.w # "" -> Oom(i)                  \* no type has such a name
      [] t.k = "name" -> R([k |-> "atomic", n |-> WithPrefix(t.v, XsP)], i + 1)
      [] t.k = "(" -> LET r == Need(PItemType(ts, i + 1)) IN
                      IF Bad(r) THEN r ELSE IF K(ts, r.i) # ")" THEN Err(r.i) ELSE R(r.e, r.i + 1)
      [] OTHER -> Nil(i)

(* ---- primaries ---------------------------------------------------------------- *)
(* "(" arguments ")"; a lone "?" is a placeholder.                               *)
PArg(ts, i) == IF K(ts, i) = "?" /\ K(ts, i + 1) \in {",", ")"} THEN R([k |-> "hole"], i + 1) ELSE PSingle(ts, i)
RECURSIVE PArgList(_, _, _)
PArgList(ts, i, acc) ==
    LET r == Need(PArg(ts, i)) IN
    IF Bad(r) THEN r
    ELSE IF K(ts, r.i) = "," THEN PArgList(ts, r.i + 1, Append(acc, r.e))
    ELSE IF K(ts, r.i) = ")" THEN R([k |-> "args", es |-> Append(acc, r.e)], r.i + 1)
    ELSE Err(r.i)
PArgs(ts, i) ==         \* i at "("
    IF K(ts, i + 1) = ")" THEN R([k |-> "args", es |-> <<>>], i + 2) ELSE PArgList(ts, i + 1, <<>>)

(* Key specifier of a lookup, i after the "?".                                   *)
PKey(ts, i) ==
    LET t == T(ts, i) IN
    CASE t.k = "name" -> IF HasColon(t.v) THEN Err(i) ELSE R([k |-> "str", v |-> t.v], i + 1)
      [] t.k = "int" -> R([k |-> "int", v |-> t.v], i + 1)
      [] t.k = "*" -> R([k |-> "all"], i + 1)
      [] t.k = "(" -> POptClosed(ts, i + 1, ")")
      [] OTHER -> Err(i)

PPost(ts, p) ==
    CASE K(ts, p.i) = "[" ->
           LET r == Need(PExpr(ts, p.i + 1)) IN
           IF Bad(r) THEN r ELSE IF K(ts, r.i) # "]" THEN Err(r.i)
           ELSE PPost(ts, R([k |-> "filter", a |-> p.e, p |-> r.e], r.i + 1))
      [] K(ts, p.i) = "(" ->
           LET a == PArgs(ts, p.i) IN
           IF Bad(a) THEN a
           ELSE IF \E j \in 1..Len(a.e.es) : a.e.es[j].k = "hole" THEN Oom(p.i)
           ELSE PPost(ts, R([k |-> "dyn", f |-> p.e, es |-> a.e.es], a.i))
      [] K(ts, p.i) = "?" ->
           LET r == PKey(ts, p.i + 1) IN
           IF Bad(r) THEN r ELSE PPost(ts, R([k |-> "lookup", a |-> p.e, key |-> r.e], r.i))
      [] OTHER -> p

PParams(ts, i, acc) ==       \* i at "$"
    IF K(ts, i) # "$" \/ K(ts, i + 1) # "name" THEN Err(i)
    ELSE LET has == W(ts, i + 2) = "as"
             t == IF has THEN Need(PSeqType(ts, i + 3)) ELSE R(AnyItem, i + 2)
             ps == Append(acc, [n |-> T(ts, i + 1).v, ty |-> t.e])
         IN IF Bad(t) THEN t ELSE IF K(ts, t.i) = "," THEN PParams(ts, t.i + 1, ps)
            ELSE R([k |-> "params", ps |-> ps], t.i)
PMapEntries(ts, i, acc) ==
    LET kx == Need(PSingle(ts, i))
        vx == Need(PSingle(ts, kx.i + 1))
        es == Append(acc, [k |-> kx.e, v |-> vx.e])
    IN IF Bad(kx) THEN kx ELSE IF K(ts, kx.i) # ":" THEN Err(kx.i) ELSE IF Bad(vx) THEN vx
       ELSE IF K(ts, vx.i) = "," THEN PMapEntries(ts, vx.i + 1, es)
       ELSE IF K(ts, vx.i) = "}" THEN R([k |-> "map", es |-> es], vx.i + 1) ELSE Err(vx.i)

PPrimary(ts, i) ==
    LET t == T(ts, i)  nx == K(ts, i + 1) IN
    CASE t.k \in {"int", "dec", "dbl", "str"} -> R([k |-> t.k, v |-> t.v], i + 1)
      [] t.k = "$" -> IF nx = "name" THEN R([k |-> "var", v |-> T(ts, i + 1).v], i + 2) ELSE Err(i)
      [] t.k = "(" -> POptClosed(ts, i + 1, ")")
      [] t.k = "." -> R([k |-> "dot"], i + 1)
      [] t.k = "?" -> LET r == PKey(ts, i + 1) IN IF Bad(r) THEN r ELSE R([k |-> "lookup", a |-> [k |-> "dot"], key |-> r.e], r.i)
      [] t.k = "[" -> IF nx = "]" THEN R([k |-> "square", es |-> <<>>], i + 2)
                      ELSE LET r == Need(PSingle(ts, i + 1))
                               l == PList(ts, r.i, <<r.e>>)
                           IN IF Bad(r) THEN r ELSE IF Bad(l) THEN l ELSE IF K(ts, l.i) # "]" THEN Err(l.i)
                              ELSE R([k |-> "square", es |-> l.e.es], l.i + 1)
      [] t.k = "name" /\ t.w = "array" /\ nx = "{" ->
            LET r == POptClosed(ts, i + 2, "}") IN IF Bad(r) THEN r ELSE R([k |-> "curly", a |-> r.e], r.i)
      [] t.k = "name" /\ t.w = "map" /\ nx = "{" ->
            IF K(ts, i + 2) = "}" THEN R([k |-> "map", es |-> <<>>], i + 3) ELSE PMapEntries(ts, i + 2, <<>>)
      [] t.k = "name" /\ t.w = "function" /\ nx = "(" ->
            LET p == IF K(ts, i + 2) = ")" THEN R([k |-> "params", ps |-> <<>>], i + 2) ELSE PParams(ts, i + 2, <<>>)
                has == W(ts, p.i + 1) = "as"
                ty == IF has THEN Need(PSeqType(ts, p.i + 2)) ELSE R(AnyItem, p.i + 1)
                b == POptClosed(ts, ty.i + 1, "}")
            IN IF Bad(p) THEN p ELSE IF K(ts, p.i) # ")" THEN Err(p.i) ELSE IF Bad(ty) THEN ty
               ELSE IF K(ts, ty.i) # "{" THEN Err(ty.i) ELSE IF Bad(b) THEN b
               ELSE R([k |-> "inline", ps |-> p.e.ps, r |-> ty.e, b |-> b.e], b.i)
      [] t.k = "name" /\ nx = "#" ->
            IF K(ts, i + 2) # "int" \/ t.w \in Reserved THEN Err(i)
            ELSE LET n == WithPrefix(t.v, FnP)
                     a == T(ts, i + 2).v
                     ar == IF Len(a) > 3 THEN 98 ELSE FoldLeft(LAMBDA x, c : (10 * x) + (c - 48), 0, a)
                     c == FnCheck(n, ar)
                 IN IF c = "ERR" THEN Err(i) ELSE IF c = "OOM" THEN Oom(i)
                    ELSE R([k |-> "fref", n |-> n, ar |-> ar], i + 3)
      [] t.k = "name" /\ nx = "(" ->
            IF t.w \in Reserved THEN Err(i)
            ELSE LET a == PArgs(ts, i + 1)
                     n == WithPrefix(t.v, FnP)
                     c == FnCheck(n, Len(a.e.es))
                     holes == \E j \in 1..Len(a.e.es) : a.e.es[j].k = "hole"
                 IN IF Bad(a) THEN a ELSE IF c = "ERR" THEN Err(i) ELSE IF c = "OOM" THEN Oom(i)
                    ELSE R([k |-> IF holes THEN "partial" ELSE "call", n |-> n, es |-> a.e.es], a.i)
      [] OTHER -> Nil(i)

(* The expression denoted by a text; k "ERR", "UNIMPL" or "OOM" if none.         *)
ParseX(txt) ==
    LET ts == Tokens(txt)
        last == ts[Len(ts)].k
        r == PExpr(ts, 1)
    IN IF last = "OOM" THEN OOMX
       ELSE IF last = "ERR" THEN ERRX
       ELSE IF IsNil(r) THEN ERRX
       ELSE IF Bad(r) THEN r.e
       ELSE IF K(ts, r.i) # "EOF" THEN ERRX
       ELSE r.e
=============================================================================
