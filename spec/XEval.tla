------------------------------- MODULE XEval --------------------------------
(* Evaluation of XPath expressions.                                           *)
(* An environment x is a record                                               *)
(*   f the forest     ord nodes of the context's tree in document order       *)
(*   it the context item, as a sequence of at most one item                   *)
(*   pos, last the context position and size (0 at top level)                 *)
(*   vars the variables in scope, innermost first, as [n, v]                  *)
EXTENDS XVal, FnSigs

(* ---- axes --------------------------------------------------------------------- *)
(* All defined from the document order and the parent relation.                    *)
AncOf(f, y) == LET RECURSIVE up(_)
                   up(z) == IF f[z].p = 0 THEN {} ELSE {f[z].p} \cup up(f[z].p)
               IN up(y)
IsAttr(f, y) == f[y].t = "attr"
Keep(q, P(_)) == SelectSeq(q, P)
Axis(x, y, ax) ==
    LET f == x.f
        sub == Order(f, y)
        sset == {sub[i] : i \in 1..Len(sub)}
        anc == AncOf(f, y)
        me == Idx(x.ord, y)
        after == SubSeq(x.ord, me + 1, Len(x.ord))
        before == SubSeq(x.ord, 1, me - 1)
        sibs == IF f[y].p = 0 \/ IsAttr(f, y) THEN <<>> ELSE f[f[y].p].c
    IN CASE ax = "self" -> <<y>>
         [] ax = "child" -> f[y].c
         [] ax = "attribute" -> f[y].a
         [] ax = "parent" -> IF f[y].p = 0 THEN <<>> ELSE <<f[y].p>>
         [] ax = "ancestor" -> Keep(before, LAMBDA z : z \in anc)
         [] ax = "ancestor-or-self" -> Append(Keep(before, LAMBDA z : z \in anc), y)
         [] ax = "descendant" -> Keep(Tail(sub), LAMBDA z : ~IsAttr(f, z))
         [] ax = "descendant-or-self" -> <<y>> \o Keep(Tail(sub), LAMBDA z : ~IsAttr(f, z))
         [] ax = "following" -> Keep(after, LAMBDA z : ~IsAttr(f, z) /\ z \notin sset)
         [] ax = "preceding" -> Keep(before, LAMBDA z : ~IsAttr(f, z) /\ z \notin anc)
         [] ax = "following-sibling" -> Keep(after, LAMBDA z : \E i \in 1..Len(sibs) : sibs[i] = z)
         [] ax = "preceding-sibling" -> Keep(before, LAMBDA z : \E i \in 1..Len(sibs) : sibs[i] = z)
ReverseAxes == {"ancestor", "ancestor-or-self", "preceding", "preceding-sibling"}

XsiNil == S("xsi:nil")
Nilled(f, y) == f[y].t = "elem" /\ AttrVal(f, y, XsiNil) = TrueT
NameMatch(f, y, t) ==
    CASE t.p = "*" -> TRUE
      [] t.p = "pre" -> SpaceName(f[y].n) = t.n
      [] t.p = "loc" -> LocalName(f[y].n) = t.n
      [] OTHER -> f[y].n = t.n
Matches(f, y, t, principal) ==
    CASE t.k = "any" -> TRUE
      [] t.k = "name" -> f[y].t = principal /\ NameMatch(f, y, t)
      [] t.k = "kind" -> f[y].t = t.t
      [] t.k = "pi" -> f[y].t = "pi" /\ (t.any \/ f[y].n = t.n)
      [] t.k = "typed" -> /\ f[y].t = t.t
                          /\ NameMatch(f, y, t.nm)
                          /\ t.ty = <<>> \/ Derives(IF t.t = "elem" THEN XsUntyped ELSE XsUntypedAtomic, t.ty)
                          /\ t.q \/ t.t # "elem" \/ ~Nilled(f, y)

(* ---- types ------------------------------------------------------------------------ *)
And3(a, b) == IF a = "F" \/ b = "F" THEN "F" ELSE IF a = "O" \/ b = "O" THEN "O" ELSE "T"
All3(n, F(_)) == LET rs == {F(i) : i \in 1..n} IN IF "F" \in rs THEN "F" ELSE IF "O" \in rs THEN "O" ELSE "T"
B3(b) == IF b THEN "T" ELSE "F"
Occurs(o, n) == CASE o = "0" -> n = 0 [] o = "1" -> n = 1 [] o = "?" -> n <= 1 [] o = "*" -> TRUE [] o = "+" -> n >= 1
OccSub(a, b) == CASE a = "0" -> b \in {"0", "?", "*"} [] a = "?" -> b \in {"?", "*"} [] a = "*" -> b = "*"
                  [] a = "1" -> b \in {"?", "*", "1", "+"} [] a = "+" -> b \in {"*", "+"}
KnownType(n) == n \in {ParentTypes[i].a : i \in 1..Len(ParentTypes)} \cup {Xs("anyType")}

RECURSIVE SubTy(_, _), SubItem(_, _)
SubTy(a, b) == IF ~OccSub(a.o, b.o) THEN "F" ELSE IF a.o = "0" THEN "T" ELSE IF b.o = "0" THEN "F" ELSE SubItem(a.it, b.it)
(* Element and attribute tests: the name, the type annotation and, for elements,     *)
(* whether nilled ones are meant.                                                    *)
TypedSub(a, b) ==
    IF a.t # b.t \/ ~(b.nm.p = "*" \/ a.nm = b.nm) \/ (a.t = "elem" /\ a.q /\ ~b.q) THEN "F"
    ELSE LET at == IF a.ty = <<>> THEN Xs("anyType") ELSE a.ty
             bt == IF b.ty = <<>> THEN Xs("anyType") ELSE b.ty IN
         IF ~KnownType(at) \/ ~KnownType(bt) THEN "O" ELSE B3(Derives(at, bt))
(* Node kinds.                                                                       *)
KindSub(a, b) == CASE b.k = "any" -> "T"
                   [] a.k = "any" -> "F"
                   [] a.k # b.k -> "F"
                   [] a.k = "kind" -> B3(a.t = b.t)
                   [] a.k = "pi" -> B3(b.any \/ (~a.any /\ a.n = b.n))
                   [] OTHER -> TypedSub(a, b)
NodeKinds == {"any", "kind", "pi", "typed"}
SubItem(a, b) ==
    CASE b.k = "item" -> "T"
      [] a.k = "item" -> "F"
      [] a.k \in NodeKinds -> IF b.k \in NodeKinds THEN KindSub(a, b) ELSE "F"
      [] b.k \in NodeKinds -> "F"
      [] a.k = "atomic" -> IF b.k = "atomic" THEN (IF ~KnownType(a.n) \/ ~KnownType(b.n) THEN "O" ELSE B3(Derives(a.n, b.n))) ELSE "F"
      [] b.k = "atomic" -> "F"
      [] b.k = "anyfn" -> "T"
      [] a.k = "anyfn" -> "F"
      [] a.k = "fn" /\ b.k = "fn" -> IF Len(a.ps) # Len(b.ps) THEN "F"
                                     ELSE And3(SubTy(a.r, b.r), All3(Len(a.ps), LAMBDA i : SubTy(b.ps[i], a.ps[i])))
      [] a.k = "map" /\ b.k = "map" -> And3(B3(Derives(a.key, b.key)), SubTy(a.v, b.v))
      [] a.k = "arr" /\ b.k = "arr" -> SubTy(a.v, b.v)
      [] a.k \in {"map", "arr"} /\ b.k = "fn" -> "O"
      [] OTHER -> "F"

SigOf(n, ar) ==
    LET m == SelectSeq(Sigs, LAMBDA g : g.ar = ar /\ (S(g.n) = n \/ S("fn:") \o S(g.n) = n)) IN
    IF m = <<>> THEN [k |-> "none"] ELSE PSeqType(Tokens(S(m[1].sig)), 1).e.it
(* The signature of a function item; k "none" if left open.                          *)
FunSig(x) ==
    CASE x.fx.k = "inline" -> [k |-> "fn", ps |-> MapSeq(x.fx.ps, LAMBDA p : p.ty), r |-> x.fx.r]
      [] x.fx.k = "fref" -> SigOf(x.fx.n, x.fx.ar)
      [] x.fx.k = "partial" -> LET g == SigOf(x.fx.n, Len(x.fx.es))
                                   open == SelectSeq([i \in 1..Len(x.fx.es) |-> i], LAMBDA i : x.fx.es[i].k = "hole") IN
                               IF g.k = "none" THEN g ELSE [g EXCEPT !.ps = MapSeq(open, LAMBDA i : @[i])]

RECURSIVE MatchTy(_, _, _), MatchItem(_, _, _)
MatchTy(f, v, ty) == IF ~Occurs(ty.o, Len(v)) THEN "F" ELSE All3(Len(v), LAMBDA i : MatchItem(f, v[i], ty.it))
MatchItem(f, x, it) ==
    CASE it.k = "item" -> "T"
      [] it.k = "none" -> "F"
      [] it.k \in NodeKinds -> IF IsNode(x) THEN B3(Matches(f, x.id, it, "elem")) ELSE "F"
      [] it.k = "atomic" -> IF it.n = XsError THEN "O" ELSE IF IsNode(x) \/ IsFun(x) THEN "F" ELSE B3(Derives(TypeName(x), it.n))
      [] it.k = "anyfn" -> B3(IsFun(x))
      [] it.k = "map" -> IF x.t # "map" THEN "F"
                         ELSE All3(Len(x.m), LAMBDA i : And3(MatchItem(f, x.m[i].k, [k |-> "atomic", n |-> it.key]), MatchTy(f, x.m[i].w, it.v)))
      [] it.k = "arr" -> IF x.t # "arr" THEN "F" ELSE All3(Len(x.a), LAMBDA i : MatchTy(f, x.a[i], it.v))
      [] it.k = "fn" ->
           CASE x.t = "fun" -> LET g == FunSig(x) IN IF g.k = "none" THEN "O" ELSE SubItem(g, it)
             [] x.t = "map" -> "O"
             [] x.t = "arr" -> IF Len(it.ps) # 1 THEN "F" ELSE IF it.ps[1] # SeqTy("1", [k |-> "atomic", n |-> XsInteger]) THEN "O" ELSE "O"
             [] OTHER -> "F"
(* "T", "F" or "O" as a result.                                                       *)
Res3(r, F(_)) == IF r = "O" THEN OomV ELSE F(r = "T")

(* ---- functions ------------------------------------------------------------------------ *)
Opt(r, F(_)) == Then(r, F)
IntArg(v) == IF Len(v) = 1 /\ v[1].t = "int" THEN Ok(v[1].z) ELSE ErrV
(* Numeric argument of substring and subsequence.                                      *)
NumArg(f, v) ==
    IF Len(v) # 1 THEN ErrV
    ELSE IF IsNum(v[1]) THEN Ok(DblOf(v[1]))
    ELSE IF IsNode(v[1]) THEN LET d == DoubleOfText(StringValue(f, v[1].id)) IN IF d.s = "err" THEN OomV ELSE d
    ELSE OomV
OneNode(f, v, empty, F(_)) == IF v = <<>> THEN empty ELSE IF Len(v) = 1 /\ IsNode(v[1]) THEN F(v[1].id) ELSE ErrV

NumberOf(f, v) ==
    IF v = <<>> THEN One(Db(NAN)) ELSE IF Len(v) # 1 THEN ErrV
    ELSE LET a == Atom(f, v[1]) IN
         CASE IsNum(a) -> One(Db(DblOf(a)))
           [] a.t = "bool" -> One(Db(FOf(IF a.b THEN 1 ELSE 0)))
           [] a.t = "str" -> LET d == DoubleOfText(a.s) IN IF d.s = "oom" THEN OomV ELSE IF d.s = "err" THEN One(Db(NAN)) ELSE One(Db(d.v))
           [] OTHER -> ErrV
(* Operands of sum: numbers as they are, everything else read as a double.              *)
SumItem(f, y) ==
    LET a == Atom(f, y) IN
    IF IsNum(a) THEN One(a) ELSE IF a.t \in {"str", "bool"} THEN CastItem(f, a, XsDouble) ELSE ErrV
Sum(f, v) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i > Len(v) THEN One(acc)
                      ELSE Then(SumItem(f, v[i]), LAMBDA y : Then(ArithItems("+", acc, y[1]), LAMBDA z : go(i + 1, z[1])))
    IN go(1, In(ZOf(0)))
IsNaN(y) == y.t \in {"dec", "dbl"} /\ y.d.c = "nan"
Extreme(f, v, op) ==
    LET RECURSIVE go(_, _)
        as == Atoms(f, v)
        go(i, acc) == IF i > Len(as) THEN One(acc)
                      ELSE LET o == Order3(acc, as[i]) IN
                           IF o = "no" THEN ErrV
                           ELSE IF IsNaN(acc) THEN go(i + 1, acc) ELSE IF IsNaN(as[i]) THEN go(i + 1, as[i])
                           ELSE go(i + 1, IF Holds(op, o) THEN acc ELSE as[i])
        r == go(1, as[1])
    IN IF v = <<>> THEN Ok(<<>>) ELSE IF \E i \in 1..Len(as) : IsFun(as[i]) THEN ErrV
       (* which of several equal values of different types is left open *)
       ELSE IF IsOk(r) /\ \E i \in 1..Len(as) : as[i].t # r.v[1].t /\ (Order3(as[i], r.v[1]) = "eq" \/ (IsNaN(as[i]) /\ IsNaN(r.v[1]))) THEN OomV
       ELSE r
RoundWith(v, F(_), absolute) ==
    IF v = <<>> THEN Ok(<<>>) ELSE IF Len(v) # 1 THEN ErrV
    ELSE LET a == v[1] IN
         CASE a.t = "int" -> IF absolute THEN MkInt([a.z EXCEPT !.neg = FALSE]) ELSE One(a)
           [] a.t = "dec" -> MkDec(F(a.d))
           [] a.t = "dbl" -> MkDbl(F(a.d))
           [] IsNode(a) -> OomV
           [] OTHER -> ErrV
Valid(c) == (c >= 1 /\ c < 55296) \/ (c > 57343 /\ c <= 1114111)
Surrogate(c) == 55296 <= c /\ c <= 57343
CodesToString(f, v) ==
    LET code(i) == IF IsFun(v[i]) THEN ErrV
                   ELSE IF v[i].t # "int" THEN (IF ~IsOk(CastItem(f, v[i], XsInteger)) THEN ErrV ELSE OomV)
                   ELSE IF v[i].z.neg \/ ZCmp(v[i].z, ZOf(1114111)) > 0 THEN ErrV
                   ELSE IF Surrogate(ZSmall(v[i].z)) THEN ErrV
                   ELSE IF ~Valid(ZSmall(v[i].z)) THEN OomV ELSE Ok(ZSmall(v[i].z))
        rs == {code(i).s : i \in 1..Len(v)}
    IN IF "oom" \in rs THEN OomV ELSE IF "err" \in rs THEN ErrV
       ELSE OkStr(Tup([i \in 1..Len(v) |-> ZSmall(v[i].z)]))
XmlLangT == S("xml:lang")
LangOf(f, y) == LET RECURSIVE up(_)
                    up(z) == IF z = 0 THEN NOVAL
                             ELSE LET v == IF f[z].t = "elem" THEN AttrVal(f, z, XmlLangT) ELSE NOVAL IN
                                  IF v # NOVAL THEN v ELSE up(f[z].p)
                IN up(y)
Lang(f, want, y) ==
    LET have == LangOf(f, y) IN
    IF have = NOVAL THEN OkBool(FALSE)
    ELSE IF CaseOom(have) \/ CaseOom(want) THEN OomV
    ELSE LET h == Lower(have)  w == Lower(want) IN
         OkBool(h = w \/ (Len(h) > Len(w) /\ SubSeq(h, 1, Len(w)) = w /\ h[Len(w) + 1] = 45))
HasText(t, p) == IndexOfText(t, p, 1) # 0

(* Text operands: two optional strings.                                                  *)
TwoText(f, a, b, F(_, _)) == LET s == StrArg0(f, a)  t == StrArg0(f, b) IN
                             IF ~IsOk(s) THEN s ELSE IF ~IsOk(t) THEN t ELSE F(s.v, t.v)
CatText(f, v) ==          \* argument of concat
    IF v = <<>> THEN Ok(<<>>) ELSE IF Len(v) # 1 THEN ErrV ELSE RawText(f, v[1])
Places(n, ks, v) == Tup(MapSeq(ks, LAMBDA p : v[p]))
Digits09 == 48..57

(* Functions that need neither the focus nor a function to call.                         *)
Plain(x, n, a) ==
    LET f == x.f  one == a[1]  two == a[2]  three == a[3] IN
    CASE n = "true" -> OkBool(TRUE)
      [] n = "false" -> OkBool(FALSE)
      [] n = "boolean" -> Then(Ebv(one), OkBool)
      [] n = "not" -> Then(Ebv(one), LAMBDA b : OkBool(~b))
      [] n = "string" -> IF one = <<>> THEN OkStr(<<>>) ELSE IF Len(one) # 1 THEN ErrV ELSE Then(RawText(f, one[1]), OkStr)
      [] n = "data" -> IF \E i \in 1..Len(one) : IsFun(one[i]) THEN OomV ELSE Ok(Atoms(f, one))
      [] n = "number" -> NumberOf(f, one)
      [] n = "string-length" -> Then(StrArg0(f, one), LAMBDA t : OkInt(Len(t)))
      [] n = "normalize-space" -> Then(StrArg0(f, one), LAMBDA t : OkStr(NormalSpace(t)))
      [] n = "upper-case" -> Then(StrArg0(f, one), LAMBDA t : IF CaseOom(t) THEN OomV ELSE OkStr(Upper(t)))
      [] n = "lower-case" -> Then(StrArg0(f, one), LAMBDA t : IF CaseOom(t) THEN OomV ELSE OkStr(Lower(t)))
      [] n = "translate" ->
            Then(StrArg0(f, one), LAMBDA t :
               LET m == StrArg(f, two)  r == StrArg(f, three) IN
               IF IsOk(m) /\ IsOk(r) THEN OkStr(Translate(t, m.v, r.v))
               ELSE IF one = <<>> THEN OomV          \* the others need not be looked at
               ELSE ErrV)
      [] n = "concat" -> Then(ConcatMap(Len(a), LAMBDA i : CatText(f, a[i])), OkStr)
      [] n = "string-join" ->
            LET sep == IF Len(a) = 1 THEN Ok(<<>>) ELSE StrArg(f, two) IN
            Then(CollectMap(Len(one), LAMBDA i : RawText(f, one[i])), LAMBDA ts : Then(sep, LAMBDA s : OkStr(JoinR(ts, s))))
      [] n = "substring" ->
            LET t == StrArg0(f, one)  s == NumArg(f, two)  l == IF Len(a) = 3 THEN NumArg(f, three) ELSE Ok(ZERO(FALSE)) IN
            IF ~IsOk(t) THEN t
            ELSE IF ~IsOk(s) \/ ~IsOk(l) THEN (IF one = <<>> THEN OomV ELSE IF ~IsOk(s) THEN s ELSE l)
            ELSE IF IsOom(s.v) \/ IsOom(l.v) THEN OomV
            ELSE OkStr(MapSeq(Kept(Len(t.v), s.v, l.v, Len(a) = 2), LAMBDA p : t.v[p]))
      [] n = "contains" -> TwoText(f, one, two, LAMBDA s, t : OkBool(HasText(s, t)))
      [] n = "starts-with" -> TwoText(f, one, two, LAMBDA s, t : OkBool(At(s, 1, t)))
      [] n = "ends-with" -> TwoText(f, one, two, LAMBDA s, t : OkBool(Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t))
      [] n = "substring-before" -> TwoText(f, one, two, LAMBDA s, t :
            LET i == IndexOfText(s, t, 1) IN OkStr(IF i = 0 \/ t = <<>> THEN <<>> ELSE SubSeq(s, 1, i - 1)))
      [] n = "substring-after" -> TwoText(f, one, two, LAMBDA s, t :
            LET i == IndexOfText(s, t, 1) IN OkStr(IF i = 0 THEN <<>> ELSE SubSeq(s, i + Len(t), Len(s))))
      [] n = "compare" -> IF one = <<>> \/ two = <<>> THEN Ok(<<>>)
            ELSE TwoText(f, one, two, LAMBDA s, t : OkInt(LET c == CmpText(s, t) IN IF c < 0 THEN -1 ELSE IF c > 0 THEN 1 ELSE 0))
      [] n = "codepoint-equal" -> IF one = <<>> \/ two = <<>> THEN Ok(<<>>)
            ELSE TwoText(f, one, two, LAMBDA s, t : OkBool(s = t))
      [] n = "codepoints-to-string" -> CodesToString(f, one)
      [] n = "string-to-codepoints" -> Then(StrArg0(f, one), LAMBDA t : Ok(MapSeq(t, LAMBDA c : In(ZOf(c)))))
      [] n = "abs" -> RoundWith(one, FAbs, TRUE)
      [] n = "ceiling" -> RoundWith(one, FCeil, FALSE)
      [] n = "floor" -> RoundWith(one, FFloor, FALSE)
      [] n = "round" -> RoundWith(one, FRound, FALSE)
      [] n = "empty" -> OkBool(one = <<>>)
      [] n = "exists" -> OkBool(one # <<>>)
      [] n = "head" -> Ok(IF one = <<>> THEN one ELSE SubSeq(one, 1, 1))
      [] n = "tail" -> Ok(IF one = <<>> THEN one ELSE Tail(one))
      [] n = "reverse" -> Ok(Tup([i \in 1..Len(one) |-> one[Len(one) + 1 - i]]))
      [] n = "count" -> OkInt(Len(one))
      [] n = "insert-before" -> Then(IntArg(two), LAMBDA z :
            LET p == IF z.neg \/ z.m = <<>> THEN 1 ELSE IF ~ZIsSmall(z) \/ ZSmall(z) > Len(one) THEN Len(one) + 1 ELSE ZSmall(z) IN
            Ok(SubSeq(one, 1, p - 1) \o three \o SubSeq(one, p, Len(one))))
      [] n = "remove" -> Then(IntArg(two), LAMBDA z :
            LET p == IF z.neg \/ ~ZIsSmall(z) THEN 0 ELSE ZSmall(z) IN
            Ok(IF p < 1 \/ p > Len(one) THEN one ELSE SubSeq(one, 1, p - 1) \o SubSeq(one, p + 1, Len(one))))
      [] n = "subsequence" ->
            LET s == NumArg(f, two)  l == IF Len(a) = 3 THEN NumArg(f, three) ELSE Ok(ZERO(FALSE)) IN
            IF one = <<>> /\ ~(IsOk(s) /\ IsOk(l)) THEN OomV
            ELSE IF ~IsOk(s) THEN s ELSE IF ~IsOk(l) THEN l ELSE IF IsOom(s.v) \/ IsOom(l.v) THEN OomV
            ELSE Ok(MapSeq(Kept(Len(one), s.v, l.v, Len(a) = 2), LAMBDA p : one[p]))
      [] n = "index-of" ->
            IF Len(two) # 1 THEN ErrV
            ELSE IF IsFun(two[1]) \/ \E i \in 1..Len(one) : IsFun(one[i]) THEN OomV
            ELSE LET k == Atom(f, two[1]) IN
                 Ok(MapSeq(SelectSeq([i \in 1..Len(one) |-> i], LAMBDA i : Order3(Atom(f, one[i]), k) = "eq"), LAMBDA i : In(ZOf(i))))
      [] n = "zero-or-one" -> IF Len(one) <= 1 THEN Ok(one) ELSE ErrV
      [] n = "one-or-more" -> IF Len(one) >= 1 THEN Ok(one) ELSE ErrV
      [] n = "exactly-one" -> IF Len(one) = 1 THEN Ok(one) ELSE ErrV
      [] n = "sum" -> IF one = <<>> THEN (IF Len(a) = 2 THEN Ok(two) ELSE OkInt(0)) ELSE Sum(f, one)
      [] n = "avg" -> IF one = <<>> THEN Ok(<<>>)
                      ELSE Then(Sum(f, one), LAMBDA s : ArithItems("div", s[1], In(ZOf(Len(one)))))
      [] n = "max" -> Extreme(f, one, "gt")
      [] n = "min" -> Extreme(f, one, "lt")
      [] n = "nilled" -> OneNode(f, one, Ok(<<>>), LAMBDA y : IF f[y].t = "elem" THEN OkBool(Nilled(f, y)) ELSE Ok(<<>>))
      [] n = "name" -> OneNode(f, one, OkStr(<<>>), LAMBDA y : OkStr(f[y].n))
      [] n = "local-name" -> OneNode(f, one, OkStr(<<>>), LAMBDA y : OkStr(LocalName(f[y].n)))
      [] n = "namespace-uri" -> OneNode(f, one, OkStr(<<>>), LAMBDA y : OkStr(NsUri(f, y)))
      [] n = "root" -> OneNode(f, one, Ok(<<>>), LAMBDA y : One(Nd(RootOf(f, y))))
      [] n = "lang" -> IF Len(two) # 1 \/ ~IsNode(two[1]) THEN ErrV
                       ELSE Then(StrArg0(f, one), LAMBDA w : Lang(f, w, two[1].id))
      [] n = "map:size" -> IF Len(one) # 1 \/ one[1].t # "map" THEN ErrV ELSE OkInt(Len(one[1].m))
      [] n = "map:keys" -> IF Len(one) # 1 \/ one[1].t # "map" THEN ErrV ELSE Ok(MapSeq(one[1].m, LAMBDA e : e.k))
      [] n \in {"map:contains", "map:get"} ->
            IF Len(one) # 1 \/ one[1].t # "map" \/ Len(two) # 1 THEN ErrV
            ELSE IF IsFun(two[1]) THEN OomV
            ELSE IF n = "map:get" THEN Ok(MapAt(f, one[1].m, two[1])) ELSE OkBool(MapHas(f, one[1].m, two[1]))
      [] n = "array:size" -> IF Len(one) # 1 \/ one[1].t # "arr" THEN ErrV ELSE OkInt(Len(one[1].a))
      [] n = "array:flatten" -> Ok(Flatten(one))
      [] OTHER -> OomV

(* Member of an array; the index is one item, an integer or a node that reads as one.    *)
Member(f, arr, v) ==
    IF Len(v) # 1 THEN ErrV
    ELSE LET i == IF v[1].t = "int" THEN Ok(v[1].z)
                  ELSE IF IsNode(v[1]) THEN IntegerOfText(StringValue(f, v[1].id)) ELSE ErrV IN
         Then(i, LAMBDA z : IF z.neg \/ ~ZIsSmall(z) \/ ZSmall(z) < 1 \/ ZSmall(z) > Len(arr) THEN ErrV ELSE Ok(arr[ZSmall(z)]))

FocusDefault == {"nilled", "string", "data", "number", "string-length", "normalize-space", "name", "local-name", "namespace-uri", "root"}

(* ---- expressions ------------------------------------------------------------------------- *)
RECURSIVE Ev(_, _), EvAll(_, _), Call(_, _, _), Apply1(_, _, _), Select(_, _, _, _), Binds(_, _, _, _, _)
Focus(x, y, p, n) == [x EXCEPT !.it = <<y>>, !.pos = p, !.last = n]
LookVar(x, n) == LET h == SelectSeq(x.vars, LAMBDA w : w.n = n) IN IF h = <<>> THEN ErrV ELSE Ok(h[1].v)
Bind(x, n, v) == [x EXCEPT !.vars = <<[n |-> n, v |-> v]>> \o @]
EvAll(x, es) == CollectMap(Len(es), LAMBDA i : Ev(x, es[i]))          \* sequence of values

(* A sequence of results of steps: all nodes (sorted, once each), or no node at all.     *)
PathResult(x, v) ==
    IF AllNodes(v) THEN Ok(NodesIn(x.ord, Ids(v))) ELSE IF AnyNode(v) THEN ErrV ELSE Ok(v)

(* Items of v for which the predicate holds.                                              *)
PredHolds(v, p) ==
    IF Len(v) = 1 /\ IsNum(v[1])
    THEN Ok(IF v[1].t = "int" THEN v[1].z = ZOf(p) ELSE FEq(v[1].d, FOf(p)))
    ELSE Ebv(v)
Select(x, v, e, rev) ==
    LET n == Len(v)
        at(i) == IF rev THEN n + 1 - i ELSE i
    IN ConcatMap(n, LAMBDA i :
          Then(Ev(Focus(x, v[i], at(i), n), e),
               LAMBDA r : IF Len(r) = 1 /\ IsNum(r[1]) /\ NumOom(r[1]) THEN OomV
                          ELSE Then(PredHolds(r, at(i)), LAMBDA b : Ok(IF b THEN <<v[i]>> ELSE <<>>))))
Filters(x, v, ps, rev) ==
    LET RECURSIVE go(_, _)
        go(i, w) == IF i > Len(ps) THEN Ok(w) ELSE Then(Select(x, w, ps[i], rev), LAMBDA u : go(i + 1, u))
    IN go(1, v)
EvStep(x, e) ==
    IF x.it = <<>> THEN Ok(<<>>)
    ELSE IF ~IsNode(x.it[1]) THEN ErrV
    ELSE LET q == Axis(x, x.it[1].id, e.ax)
             principal == IF e.ax = "attribute" THEN "attr" ELSE "elem"
             m == Keep(q, LAMBDA y : Matches(x.f, y, e.t, principal))
         IN Filters(x, MapSeq(m, Nd), e.ps, e.ax \in ReverseAxes)

(* for / let / some / every from binding i on; value: sequence, or boolean as Ok(b).       *)
Binds(x, w, bs, i, body) ==
    IF i > Len(bs) THEN (IF w \in {"some", "every"} THEN Then(Ev(x, body), Ebv) ELSE Ev(x, body))
    ELSE Then(Ev(x, bs[i].e), LAMBDA v :
         CASE w = "let" -> Binds(Bind(x, bs[i].v, v), w, bs, i + 1, body)
           [] w = "for" -> ConcatMap(Len(v), LAMBDA k : Binds(Bind(x, bs[i].v, <<v[k]>>), w, bs, i + 1, body))
           [] OTHER -> LET RECURSIVE go(_)
                           go(k) == IF k > Len(v) THEN Ok(w = "every")
                                    ELSE LET r == Binds(Bind(x, bs[i].v, <<v[k]>>), w, bs, i + 1, body) IN
                                         IF ~IsOk(r) THEN r ELSE IF r.v = (w = "some") THEN r ELSE go(k + 1)
                       IN go(1))

ValueOps == {"eq", "ne", "lt", "le", "gt", "ge"}
GeneralOps == {"=", "!=", "<", "<=", ">", ">="}
ArithOps == {"+", "-", "*", "div", "idiv", "mod"}
NodeOp(x, op, a, b) ==
    IF a = <<>> \/ b = <<>> THEN Ok(<<>>)
    ELSE IF Len(a) # 1 \/ Len(b) # 1 \/ ~IsNode(a[1]) \/ ~IsNode(b[1]) THEN ErrV
    ELSE LET i == Idx(x.ord, a[1].id)  j == Idx(x.ord, b[1].id) IN
         OkBool(CASE op = "is" -> i = j [] op = "<<" -> i < j [] op = ">>" -> i > j)
SetOp(x, op, a, b) ==
    IF ~AllNodes(a) \/ ~AllNodes(b) THEN ErrV
    ELSE LET p == Ids(a)  q == Ids(b) IN
         Ok(NodesIn(x.ord, CASE op = "union" -> p \cup q [] op = "intersect" -> p \cap q [] op = "except" -> p \ q))

EvBin(x, op, e1, e2) ==
    CASE op \in {"and", "or"} ->
           Then(Then(Ev(x, e1), Ebv), LAMBDA b :
                IF b = (op = "or") THEN OkBool(b) ELSE Then(Then(Ev(x, e2), Ebv), OkBool))
      [] op = "!" ->
           Then(Ev(x, e1), LAMBDA v : ConcatMap(Len(v), LAMBDA i : Ev(Focus(x, v[i], i, Len(v)), e2)))
      [] OTHER ->
           Then(EvAll(x, <<e1, e2>>), LAMBDA w :
              LET a == w[1]  b == w[2] IN
              CASE op \in ArithOps -> Arith(x.f, op, a, b)
                [] op = "to" -> IntRange(a, b)
                [] op \in ValueOps -> ValueCompare(x.f, op, a, b)
                [] op \in GeneralOps -> GeneralCompare(x.f, op, a, b)
                [] op \in {"is", "<<", ">>"} -> NodeOp(x, op, a, b)
                [] op \in {"union", "intersect", "except"} -> SetOp(x, op, a, b)
                [] op = "||" -> Plain(x, "concat", <<a, b>>))

(* Map from evaluated keys and values, in the order written.                               *)
MakeMap(f, ks, vs) ==
    LET RECURSIVE go(_, _)
        go(i, m) == IF i > Len(ks) THEN One([t |-> "map", m |-> m])
                    ELSE IF Len(ks[i]) # 1 THEN ErrV
                    ELSE LET k == Atom(f, ks[i][1]) IN
                         IF IsFun(k) \/ MapHas(f, m, k) THEN ErrV ELSE go(i + 1, Append(m, [k |-> k, w |-> vs[i]]))
    IN go(1, <<>>)

IntLit(t) == ZI(FALSE, BigOfDigits(t))
DecLit(t) == LET p == NumParts(t) IN FOfParts(p)

(* Lookup in one map or array y.                                                             *)
LookupIn(x, y, i, n, key) ==
    IF y.t \notin {"map", "arr"} THEN ErrV
    ELSE IF key.k = "all"
    THEN IF y.t = "map" THEN Ok(Cat(MapSeq(y.m, LAMBDA e : e.w))) ELSE Ok(Cat(y.a))
    ELSE Then(Ev(Focus(x, y, i, n), key), LAMBDA ks :
         ConcatMap(Len(ks), LAMBDA j :
            IF y.t = "arr" THEN Member(x.f, y.a, <<ks[j]>>)
            ELSE IF IsFun(ks[j]) THEN OomV ELSE Ok(MapAt(x.f, y.m, ks[j]))))

(* Applies the function item g to argument values.                                           *)
Apply1(x, g, as) ==
    CASE g.t = "map" -> IF Len(as) # 1 \/ Len(as[1]) # 1 THEN ErrV
                        ELSE IF IsFun(as[1][1]) THEN OomV ELSE Ok(MapAt(x.f, g.m, as[1][1]))
      [] g.t = "arr" -> IF Len(as) # 1 THEN ErrV ELSE Member(x.f, g.a, as[1])
      [] g.t = "fun" ->
           LET e == g.fx  env == g.fe IN
           CASE e.k = "inline" ->
                  IF Len(as) # Len(e.ps) THEN ErrV
                  ELSE LET ok == All3(Len(as), LAMBDA i : MatchTy(x.f, as[i], e.ps[i].ty))
                           env1 == FoldLeft(LAMBDA z, i : Bind(z, e.ps[i].n, as[i]), env, [i \in 1..Len(as) |-> i])
                       IN Res3(ok, LAMBDA b : IF ~b THEN ErrV
                                   ELSE Then(Ev(env1, e.b), LAMBDA v :
                                        Res3(MatchTy(x.f, v, e.r), LAMBDA c : IF c THEN Ok(v) ELSE ErrV)))
             [] e.k = "fref" -> IF Len(as) # e.ar THEN ErrV ELSE Call(env, e.n, as)
             [] e.k = "partial" ->
                  LET holes == SelectSeq([i \in 1..Len(e.es) |-> i], LAMBDA i : e.es[i].k = "hole") IN
                  IF Len(holes) # Len(as) THEN ErrV
                  ELSE Then(CollectMap(Len(e.es), LAMBDA i : IF e.es[i].k = "hole" THEN Ok(as[Idx(holes, i)]) ELSE Ev(env, e.es[i])),
                            LAMBDA all : Call(env, e.n, all))
      [] OTHER -> ErrV

Call(x, n, as) ==
    LET s == FnStr(n) IN
    CASE s = "position" -> OkInt(x.pos)
      [] s = "last" -> OkInt(x.last)
      [] as = <<>> /\ s \in FocusDefault -> IF x.it = <<>> THEN OomV ELSE Plain(x, s, <<x.it>>)
      [] s = "lang" /\ Len(as) = 1 -> IF x.it = <<>> THEN OomV ELSE Plain(x, s, <<as[1], x.it>>)
      [] s = "array:get" -> IF Len(as[1]) # 1 \/ as[1][1].t # "arr" THEN ErrV ELSE Member(x.f, as[1][1].a, as[2])
      [] s = "for-each" ->
           IF Len(as[2]) # 1 \/ ~IsFun(as[2][1]) THEN ErrV
           ELSE ConcatMap(Len(as[1]), LAMBDA i : Apply1(x, as[2][1], <<<<as[1][i]>>>>))
      [] s = "filter" ->
           IF Len(as[2]) # 1 \/ ~IsFun(as[2][1]) THEN ErrV
           ELSE ConcatMap(Len(as[1]), LAMBDA i :
                   Then(Apply1(x, as[2][1], <<<<as[1][i]>>>>), LAMBDA v :
                        IF Len(v) # 1 \/ v[1].t # "bool" THEN OomV
                        ELSE Ok(IF v[1].b THEN <<as[1][i]>> ELSE <<>>)))
      [] OTHER -> Plain(x, s, as)

Ev(x, e) ==
    CASE e.k = "int" -> LET z == IntLit(e.v) IN IF ZFits(z) THEN One(In(z)) ELSE ErrV
      [] e.k = "dec" -> MkDec(DecLit(e.v))
      [] e.k = "dbl" -> MkDbl(DecLit(e.v))
      [] e.k = "str" -> OkStr(e.v)
      [] e.k = "var" -> LookVar(x, e.v)
      [] e.k = "dot" -> IF x.it = <<>> THEN OomV ELSE Ok(x.it)
      [] e.k = "root" -> IF x.it = <<>> THEN Ok(<<>>) ELSE IF ~IsNode(x.it[1]) THEN ErrV
                         ELSE One(Nd(RootOf(x.f, x.it[1].id)))
      [] e.k = "seq" -> ConcatMap(Len(e.es), LAMBDA i : Ev(x, e.es[i]))
      [] e.k = "bind" -> LET r == Binds(x, e.w, e.bs, 1, e.b) IN
                         IF e.w \in {"some", "every"} THEN Then(r, OkBool) ELSE r
      [] e.k = "if" -> Then(Then(Ev(x, e.c), Ebv), LAMBDA b : Ev(x, IF b THEN e.a ELSE e.b))
      [] e.k = "bin" -> EvBin(x, e.op, e.a, e.b)
      [] e.k = "unary" -> Then(Ev(x, e.a), LAMBDA v : Unary(x.f, e.op, v))
      [] e.k = "inst" -> Then(Ev(x, e.a), LAMBDA v : Res3(MatchTy(x.f, v, e.ty), OkBool))
      [] e.k = "cast" -> Then(Ev(x, e.a), LAMBDA v : Cast(x.f, v, e.n, e.q))
      [] e.k = "castable" -> Then(Ev(x, e.a), LAMBDA v :
                                  LET c == Cast(x.f, v, e.n, e.q) IN IF c.s = "oom" THEN c ELSE OkBool(IsOk(c)))
      [] e.k = "path" ->
           Then(Ev(x, e.a), LAMBDA v :
                IF ~AllNodes(v) THEN ErrV
                ELSE Then(ConcatMap(Len(v), LAMBDA i : Ev(Focus(x, v[i], i, Len(v)), e.b)), LAMBDA w : PathResult(x, w)))
      [] e.k = "step" -> EvStep(x, e)
      [] e.k = "filter" -> Then(Ev(x, e.a), LAMBDA v : Select(x, v, e.p, FALSE))
      [] e.k \in {"inline", "fref", "partial"} -> One([t |-> "fun", fx |-> e, fe |-> x])
      [] e.k = "call" -> Then(EvAll(x, e.es), LAMBDA as : Call(x, e.n, as))
      [] e.k = "dyn" -> Then(Ev(x, e.f), LAMBDA g : Then(EvAll(x, e.es), LAMBDA as :
                             IF Len(g) # 1 \/ ~IsFun(g[1]) THEN ErrV ELSE Apply1(x, g[1], as)))
      [] e.k = "lookup" -> Then(Ev(x, e.a), LAMBDA v : ConcatMap(Len(v), LAMBDA i : LookupIn(x, v[i], i, Len(v), e.key)))
      [] e.k = "map" -> Then(EvAll(x, MapSeq(e.es, LAMBDA w : w.k)), LAMBDA ks :
                             Then(EvAll(x, MapSeq(e.es, LAMBDA w : w.v)), LAMBDA vs : MakeMap(x.f, ks, vs)))
      [] e.k = "square" -> Then(EvAll(x, e.es), LAMBDA vs : One([t |-> "arr", a |-> vs]))
      [] e.k = "curly" -> Then(Ev(x, e.a), LAMBDA v : One([t |-> "arr", a |-> MapSeq(v, LAMBDA y : <<y>>)]))
      [] OTHER -> OomV

(* Evaluates an expression at node y of a forest.                                              *)
EvalAt(f, y, e) ==
    Ev([f |-> f, ord |-> Order(f, RootOf(f, y)), it |-> <<Nd(y)>>, pos |-> 0, last |-> 0, vars |-> <<>>], e)
(* Text in; outcome of parsing and evaluating.                                                 *)
QueryOf(f, y, e) == CASE e.k \in {"ERR", "UNIMPL"} -> ErrV [] e.k = "OOM" -> OomV [] OTHER -> EvalAt(f, y, e)
Query(f, y, txt) == QueryOf(f, y, ParseX(txt))
=============================================================================
