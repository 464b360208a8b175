-------------------------------- MODULE XVal --------------------------------
(* Items, sequences and the operations on them that do not evaluate          *)
(* expressions.  A sequence is a TLA+ sequence of items; an item is a record  *)
(* with kind t: node[id] str[s] int[z] dec[d] dbl[d] bool[b] map[m] arr[a]    *)
(* fun[fx, fe] (an expression and the environment it was created in).         *)
(* Results are [s, v]: s = "ok" with value v, "err", or "oom" (the            *)
(* specification leaves the outcome open).                                    *)
EXTENDS XParse, Dom, Num, CaseTables

Ok(v) == [s |-> "ok", v |-> v]
ErrV == [s |-> "err", v |-> <<>>]
OomV == [s |-> "oom", v |-> <<>>]
IsOk(r) == r.s = "ok"
Then(r, F(_)) == IF IsOk(r) THEN F(r.v) ELSE r

Nd(i) == [t |-> "node", id |-> i]
St(x) == [t |-> "str", s |-> x]
In(z) == [t |-> "int", z |-> z]
(* Decimals have no negative zero.                                                 *)
De(d) == [t |-> "dec", d |-> IF IsZero(d) THEN ZERO(FALSE) ELSE d]
Db(d) == [t |-> "dbl", d |-> d]
Bo(b) == [t |-> "bool", b |-> b]
One(x) == Ok(<<x>>)
OkBool(b) == One(Bo(b))
OkStr(x) == One(St(x))
OkInt(n) == One(In(ZOf(n)))

(* Concatenation of F(1)..F(n), which are results; the first that is not ok   *)
(* is the outcome.                                                            *)
ConcatMap(n, F(_)) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i > n THEN Ok(acc)
                      ELSE LET r == F(i) IN IF IsOk(r) THEN go(i + 1, acc \o r.v) ELSE r
    IN go(1, <<>>)
CollectMap(n, F(_)) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i > n THEN Ok(acc)
                      ELSE LET r == F(i) IN IF IsOk(r) THEN go(i + 1, Append(acc, r.v)) ELSE r
    IN go(1, <<>>)

IsNode(x) == x.t = "node"
IsNum(x) == x.t \in {"int", "dec", "dbl"}
IsFun(x) == x.t \in {"map", "arr", "fun"}
AllNodes(v) == \A i \in 1..Len(v) : IsNode(v[i])
AnyNode(v) == \E i \in 1..Len(v) : IsNode(v[i])
Ids(v) == {v[i].id : i \in 1..Len(v)}
NodesIn(ord, ids) == MapSeq(SelectSeq(ord, LAMBDA y : y \in ids), Nd)
Idx(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x

(* ---- numbers ----------------------------------------------------------------- *)
(* Value as a double.                                                            *)
DblOf(x) == IF x.t = "int" THEN FOfZ(x.z) ELSE x.d
NumOom(x) == x.t # "int" /\ IsOom(x.d)
(* There is no infinite decimal: that is an overflow.                             *)
MkDec(d) == IF IsOom(d) THEN OomV ELSE IF ~IsFin(d) THEN ErrV ELSE One(De(d))
MkDbl(d) == IF IsOom(d) THEN OomV ELSE One(Db(d))
MkInt(z) == IF ZFits(z) THEN One(In(z)) ELSE ErrV
(* Digits of a numeric text at i.                                                 *)
(* Reads [sign] digits [. digits] [e [sign] digits] covering t entirely;          *)
(* [ok, neg, m (digits of the mantissa), x (power of ten)].                       *)
NoNumber == [ok |-> FALSE, neg |-> FALSE, m |-> <<>>, x |-> 0]
NumParts(t) ==
    LET signed == Len(t) > 0 /\ t[1] \in {43, 45}
        i0 == IF signed THEN 2 ELSE 1
        i1 == DigitsEnd(t, i0)
        dot == i1 <= Len(t) /\ t[i1] = 46
        i2 == IF dot THEN DigitsEnd(t, i1 + 1) ELSE i1
        ip == SubSeq(t, i0, i1 - 1)
        fp == IF dot THEN SubSeq(t, i1 + 1, i2 - 1) ELSE <<>>
        ex == i2 <= Len(t) /\ t[i2] \in {69, 101}
        es == ex /\ i2 + 1 <= Len(t) /\ t[i2 + 1] \in {43, 45}
        i3 == IF es THEN i2 + 2 ELSE i2 + 1
        i4 == IF ex THEN DigitsEnd(t, i3) ELSE i2
        en == IF ex THEN SubSeq(t, i3, i4 - 1) ELSE <<>>
        mag == IF Len(en) > 5 THEN 99999 ELSE FoldLeft(LAMBDA a, c : (10 * a) + (c - 48), 0, en)
        xv == IF es /\ t[i2 + 1] = 45 THEN -mag ELSE mag
    IN IF ip \o fp = <<>> \/ i4 # Len(t) + 1 \/ (ex /\ en = <<>>) THEN NoNumber
       ELSE [ok |-> TRUE, neg |-> signed /\ t[1] = 45, m |-> ip \o fp, x |-> xv - Len(fp)]
FOfParts(p) == IF p.x > 300 \/ p.x < -300 THEN FOOM ELSE FOfDec(p.neg, BigOfDigits(p.m), p.x)

Blank(c) == IsSpace(c)
TrimT(t) == LET a == Find(t, 1, LAMBDA c : ~Blank(c))
                RECURSIVE up(_)
                up(k) == IF k >= a /\ Blank(t[k]) THEN up(k - 1) ELSE k
            IN SubSeq(t, a, up(Len(t)))
(* The words for infinity: those of XPath and the library's own.                  *)
InfTs == {S("INF"), S("+INF"), PInfT}  NInfTs == {S("-INF"), NInfT}
(* The double denoted by a text: [s, v]; "err" if it is none.                     *)
DoubleOfText(t0) ==
    LET t == TrimT(t0)  p == NumParts(t) IN
    IF t \in InfTs THEN Ok(INF(FALSE)) ELSE IF t \in NInfTs THEN Ok(INF(TRUE)) ELSE IF t = NaNT THEN Ok(NAN)
    ELSE IF ~p.ok THEN ErrV
    ELSE IF IsOom(FOfParts(p)) THEN OomV ELSE Ok(FOfParts(p))
DecimalOfText(t0) ==
    LET t == TrimT(t0)  p == NumParts(t) IN
    IF ~p.ok \/ \E i \in 1..Len(t) : t[i] \in {69, 101} THEN ErrV
    ELSE IF IsOom(FOfParts(p)) THEN OomV ELSE IF ~IsFin(FOfParts(p)) THEN ErrV ELSE Ok(FOfParts(p))
IntegerOfText(t0) ==
    LET t == TrimT(t0)  p == NumParts(t) IN
    IF ~p.ok \/ \E i \in 1..Len(t) : t[i] \in {69, 101, 46} THEN ErrV
    ELSE LET z == ZI(p.neg, BigOfDigits(p.m)) IN IF ZFits(z) THEN Ok(z) ELSE ErrV

(* ---- text of items -------------------------------------------------------------- *)
FText(d) == IF FmtOom(d) THEN OomV ELSE Ok(FPlain(d))
TrueT == S("true")  FalseT == S("false")
(* The string value of an item; functions have none.                               *)
RawText(f, x) ==
    CASE x.t = "node" -> Ok(StringValue(f, x.id))
      [] x.t = "str"  -> Ok(x.s)
      [] x.t = "int"  -> Ok(ZText(x.z))
      [] x.t = "dec"  -> FText(x.d)
      [] x.t = "dbl"  -> FText(x.d)
      [] x.t = "bool" -> Ok(IF x.b THEN TrueT ELSE FalseT)
      [] OTHER -> ErrV
Atom(f, x) == IF IsNode(x) THEN St(StringValue(f, x.id)) ELSE x
Atoms(f, v) == MapSeq(v, LAMBDA x : Atom(f, x))
(* Single string argument.                                                         *)
StrArg(f, v) == IF Len(v) # 1 THEN ErrV
                ELSE LET a == Atom(f, v[1]) IN IF a.t = "str" THEN Ok(a.s) ELSE ErrV
StrArg0(f, v) == IF v = <<>> THEN Ok(<<>>) ELSE StrArg(f, v)

(* How results are printed.                                                         *)
HasDot(t) == \E i \in 1..Len(t) : t[i] = 46
CommaT == S(", ")  ArrowT == S(" => ")
JoinR(rs, sep) ==        \* rs: sequence of texts
    FoldLeft(LAMBDA a, i : IF i = 1 THEN rs[1] ELSE a \o sep \o rs[i], <<>>, [i \in 1..Len(rs) |-> i])
RECURSIVE ItemText(_, _), SeqText(_, _)
SeqText(f, v) ==
    LET r == CollectMap(Len(v), LAMBDA i : ItemText(f, v[i])) IN
    Then(r, LAMBDA ts : IF Len(v) = 1 THEN Ok(ts[1]) ELSE Ok(<<40>> \o JoinR(ts, CommaT) \o <<41>>))
ItemText(f, x) ==
    CASE x.t = "node" -> Ok(Display(f, x.id))
      [] x.t = "str"  -> Ok(<<34>> \o x.s \o <<34>>)
      [] x.t = "int"  -> Ok(ZText(x.z))
      [] x.t = "dec"  -> IF FmtOom(x.d) THEN OomV
                         ELSE LET t == FPlain(x.d) IN Ok(IF HasDot(t) THEN t ELSE t \o <<46, 48>>)
      [] x.t = "dbl"  -> IF FmtOom(x.d) THEN OomV ELSE Ok(FSci(x.d))
      [] x.t = "bool" -> Ok(IF x.b THEN TrueT ELSE FalseT)
      [] x.t = "map"  -> Then(CollectMap(Len(x.m), LAMBDA i :
                                 LET k == ItemText(f, x.m[i].k)  w == SeqText(f, x.m[i].w) IN
                                 IF ~IsOk(k) THEN k ELSE IF ~IsOk(w) THEN w ELSE Ok(k.v \o ArrowT \o w.v)),
                              LAMBDA ts : Ok(<<123>> \o JoinR(ts, CommaT) \o <<125>>))
      [] x.t = "arr"  -> Then(CollectMap(Len(x.a), LAMBDA i : SeqText(f, x.a[i])),
                              LAMBDA ts : Ok(<<91>> \o JoinR(ts, CommaT) \o <<93>>))
      [] OTHER -> OomV

(* ---- effective boolean value ------------------------------------------------------- *)
Ebv(v) ==
    IF v = <<>> THEN Ok(FALSE)
    ELSE IF IsNode(v[1]) THEN Ok(TRUE)
    ELSE IF Len(v) > 1 THEN ErrV
    ELSE LET x == v[1] IN
         CASE x.t = "bool" -> Ok(x.b)
           [] x.t = "str"  -> Ok(x.s # <<>>)
           [] x.t = "int"  -> Ok(x.z.m # <<>>)
           [] x.t \in {"dec", "dbl"} -> Ok(~IsZero(x.d) /\ x.d.c # "nan")
           [] OTHER -> ErrV

(* ---- comparison ------------------------------------------------------------------------ *)
(* Three-way comparison of atomic values: "lt" "eq" "gt", "un" for NaN against        *)
(* anything, "no" if they are not comparable.                                         *)
Way(n) == IF n < 0 THEN "lt" ELSE IF n > 0 THEN "gt" ELSE "eq"
Order3(x, y) ==
    CASE x.t = "int" /\ y.t = "int" -> Way(ZCmp(x.z, y.z))
      [] IsNum(x) /\ IsNum(y) -> LET a == DblOf(x)  b == DblOf(y) IN
                                 IF a.c = "nan" \/ b.c = "nan" THEN "un" ELSE Way(FCmp(a, b))
      [] x.t = "str" /\ y.t = "str" -> Way(CmpText(x.s, y.s))
      [] x.t = "bool" /\ y.t = "bool" -> IF x.b = y.b THEN "eq" ELSE IF y.b THEN "lt" ELSE "gt"
      [] OTHER -> "no"
Holds(op, o) == CASE op = "eq" -> o = "eq" [] op = "ne" -> o # "eq" [] op = "lt" -> o = "lt"
                  [] op = "le" -> o \in {"lt", "eq"} [] op = "gt" -> o = "gt" [] op = "ge" -> o \in {"gt", "eq"}
ValueCompare(f, op, a, b) ==
    IF a = <<>> \/ b = <<>> THEN Ok(<<>>)
    ELSE IF Len(a) # 1 \/ Len(b) # 1 THEN ErrV
    ELSE LET o == Order3(Atom(f, a[1]), Atom(f, b[1])) IN IF o = "no" THEN ErrV ELSE OkBool(Holds(op, o))
GeneralOp(op) == CASE op = "=" -> "eq" [] op = "!=" -> "ne" [] op = "<" -> "lt" [] op = "<=" -> "le"
                   [] op = ">" -> "gt" [] op = ">=" -> "ge"
(* Existential; values of incomparable types never satisfy it.                         *)
GeneralCompare(f, op, a, b) ==
    LET x == Atoms(f, a)  y == Atoms(f, b)  o == GeneralOp(op) IN
    IF (\E i \in 1..Len(x) : IsFun(x[i])) \/ (\E i \in 1..Len(y) : IsFun(y[i])) THEN OomV
    ELSE OkBool(\E i \in 1..Len(x) : \E j \in 1..Len(y) :
                   LET r == Order3(x[i], y[j]) IN r # "no" /\ Holds(o, r))

(* Keys of maps.                                                                        *)
SameKey(f, k1, k2) == LET o == Order3(Atom(f, k1), Atom(f, k2)) IN
    o = "eq" \/ (o = "un" /\ DblOf(Atom(f, k1)).c = "nan" /\ DblOf(Atom(f, k2)).c = "nan")
MapAt(f, m, k) == LET h == SelectSeq(m, LAMBDA e : SameKey(f, e.k, k)) IN
                  IF h = <<>> THEN <<>> ELSE h[1].w
MapHas(f, m, k) == \E i \in 1..Len(m) : SameKey(f, m[i].k, k)

(* ---- arithmetic ---------------------------------------------------------------------------- *)
NumOperand(f, v) ==      \* v: one item; nodes are read as doubles
    IF Len(v) # 1 THEN ErrV
    ELSE IF IsNode(v[1]) THEN Then(DoubleOfText(StringValue(f, v[1].id)), LAMBDA d : Ok(Db(d)))
    ELSE IF IsNum(v[1]) THEN Ok(v[1]) ELSE ErrV
FloatOp(op, a, b) == CASE op = "+" -> FAdd(a, b) [] op = "-" -> FSub(a, b) [] op = "*" -> FMul(a, b)
                       [] op = "div" -> FDiv(a, b) [] op = "mod" -> FMod(a, b)
ZeroNum(x) == IF x.t = "int" THEN x.z.m = <<>> ELSE IsZero(x.d)
ArithItems(op, x, y) ==
    IF op \in {"div", "mod"} /\ x.t # "dbl" /\ y.t # "dbl" /\ ZeroNum(y) THEN ErrV
    ELSE IF op = "idiv"
    THEN IF x.t = "dbl" /\ ~IsFin(x.d) THEN (IF IsOom(x.d) THEN OomV ELSE ErrV)
         ELSE IF y.t = "dbl" /\ y.d.c = "nan" THEN ErrV
         ELSE IF ZeroNum(y) THEN ErrV
         ELSE IF x.t = "int" /\ y.t = "int" THEN MkInt(ZQuot(x.z, y.z))
         ELSE LET q == FDiv(DblOf(x), DblOf(y)) IN
              IF IsOom(q) THEN OomV ELSE IF q.c = "inf" \/ q.e > 250 THEN ErrV      \* no such integer
              ELSE IF ~ZFits(ZOfF(q)) THEN ErrV ELSE One(In(ZOfF(q)))
    ELSE IF x.t = "int" /\ y.t = "int" /\ op # "div"
    THEN CASE op = "+" -> MkInt(ZAdd(x.z, y.z)) [] op = "-" -> MkInt(ZSub(x.z, y.z))
           [] op = "*" -> MkInt(ZMul(x.z, y.z)) [] op = "mod" -> MkInt(ZRem(x.z, y.z))
    ELSE LET d == FloatOp(op, DblOf(x), DblOf(y)) IN
         IF x.t = "dbl" \/ y.t = "dbl" THEN MkDbl(d) ELSE MkDec(d)
Arith(f, op, a, b) ==
    IF a = <<>> \/ b = <<>> THEN Ok(<<>>)
    ELSE Then(NumOperand(f, a), LAMBDA x : Then(NumOperand(f, b), LAMBDA y : ArithItems(op, x, y)))
Negate(x) == CASE x.t = "int" -> MkInt(ZNeg(x.z)) [] x.t = "dec" -> MkDec(FNeg(x.d)) [] OTHER -> MkDbl(FNeg(x.d))
Unary(f, op, a) ==
    IF a = <<>> THEN Ok(<<>>)
    ELSE Then(NumOperand(f, a), LAMBDA x : IF op = "+" THEN One(x) ELSE Negate(x))
RangeMax == 400
IntRange(a, b) ==
    IF a = <<>> \/ b = <<>> THEN Ok(<<>>)
    ELSE IF Len(a) # 1 \/ a[1].t # "int" \/ Len(b) # 1 \/ b[1].t # "int" THEN ErrV
    ELSE IF ZCmp(a[1].z, b[1].z) > 0 THEN Ok(<<>>)
    ELSE LET n == ZSub(b[1].z, a[1].z) IN
         IF ~ZIsSmall(n) \/ ZSmall(n) > RangeMax THEN OomV
         ELSE Ok(Tup([i \in 1..(ZSmall(n) + 1) |-> In(ZAdd(a[1].z, ZOf(i - 1)))]))

(* ---- types ------------------------------------------------------------------------------------ *)
Xs(n) == S("xs:") \o S(n)
XsInteger == Xs("integer")  XsDecimal == Xs("decimal")  XsDouble == Xs("double")  XsString == Xs("string")
XsBoolean == Xs("boolean")  XsUntyped == Xs("untyped")  XsUntypedAtomic == Xs("untypedAtomic")
XsError == Xs("error")  XsAnyAtomic == Xs("anyAtomicType")
ParentTypes ==
    LET P(a, b) == [a |-> Xs(a), b |-> Xs(b)] IN
    <<P("integer", "decimal"), P("decimal", "numeric"), P("double", "numeric"), P("numeric", "anyAtomicType"),
      P("string", "anyAtomicType"), P("anyURI", "string"), P("boolean", "anyAtomicType"),
      P("untypedAtomic", "anyAtomicType"), P("anyAtomicType", "anySimpleType"), P("anySimpleType", "anyType"),
      P("untyped", "anyType")>>
RECURSIVE Derives(_, _)
Derives(a, b) ==
    \/ a = b
    \/ \E i \in 1..Len(ParentTypes) : ParentTypes[i].a = a /\ Derives(ParentTypes[i].b, b)
TypeName(x) == CASE x.t = "str" -> XsString [] x.t = "int" -> XsInteger [] x.t = "dec" -> XsDecimal
                 [] x.t = "dbl" -> XsDouble [] x.t = "bool" -> XsBoolean [] OTHER -> <<>>

(* Casting one item.                                                                               *)
CastItem(f, x0, n) ==
    LET x == Atom(f, x0)
        two63 == FOfZ(ZI(FALSE, P2(63)))
    IN IF IsFun(x) THEN ErrV
       ELSE IF n = XsString THEN Then(RawText(f, x), LAMBDA t : OkStr(t))
       ELSE IF n = XsDouble THEN
            CASE x.t = "str" -> Then(DoubleOfText(x.s), LAMBDA d : One(Db(d)))
              [] x.t = "bool" -> One(Db(FOf(IF x.b THEN 1 ELSE 0)))
              [] OTHER -> One(Db(DblOf(x)))
       ELSE IF n = XsDecimal THEN
            CASE x.t = "str" -> Then(DecimalOfText(x.s), LAMBDA d : One(De(d)))
              [] x.t = "bool" -> One(De(FOf(IF x.b THEN 1 ELSE 0)))
              [] x.t = "int" -> One(De(DblOf(x)))
              [] OTHER -> IF IsOom(x.d) THEN OomV ELSE IF IsFin(x.d) THEN One(De(x.d)) ELSE ErrV
       ELSE IF n = XsInteger THEN
            CASE x.t = "str" -> Then(IntegerOfText(x.s), LAMBDA z : One(In(z)))
              [] x.t = "bool" -> OkInt(IF x.b THEN 1 ELSE 0)
              [] x.t = "int" -> One(x)
              [] OTHER -> IF IsOom(x.d) THEN OomV
                          ELSE IF ~IsFin(x.d) \/ ~FLt(FAbs(x.d), two63) THEN ErrV ELSE One(In(ZOfF(x.d)))
       ELSE IF n = XsBoolean THEN
            CASE x.t = "str" -> IF x.s \in {TrueT, <<49>>} THEN OkBool(TRUE)
                                ELSE IF x.s \in {FalseT, <<48>>} THEN OkBool(FALSE) ELSE ErrV
              [] x.t = "bool" -> One(x)
              [] OTHER -> OkBool(~ZeroNum(x) /\ ~(x.t # "int" /\ x.d.c = "nan"))
       ELSE ErrV
Cast(f, v, n, q) ==
    IF v = <<>> THEN (IF q THEN Ok(<<>>) ELSE ErrV)
    ELSE IF Len(v) # 1 THEN ErrV ELSE CastItem(f, v[1], n)

(* ---- sequences and strings ------------------------------------------------------------------------ *)
(* Positions kept by substring/subsequence: round(start) <= p < round(start) + round(length).          *)
Kept(n, start, len, two) ==
    LET s == FRound(start)
        e == FAdd(s, FRound(len))
        le(a, b) == FLt(a, b) \/ FEq(a, b)
    IN SelectSeq(Tup([p \in 1..n |-> p]), LAMBDA p : le(s, FOf(p)) /\ (two \/ FLt(FOf(p), e)))
RECURSIVE IndexOfText(_, _, _)
IndexOfText(t, p, i) == IF i + Len(p) - 1 > Len(t) THEN 0 ELSE IF At(t, i, p) THEN i ELSE IndexOfText(t, p, i + 1)
Pairs(ps) == Fast([c \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = c][2]])
UpperOf == Pairs(UpperPairs)
LowerOf == Pairs(LowerPairs)
Caseless(c) == (12288 <= c /\ c <= 40959) \/ (44032 <= c /\ c <= 55203) \/ (127744 <= c /\ c <= 129535) \/ (131072 <= c /\ c <= 196607)
CaseOom(t) == \E i \in 1..Len(t) : (t[i] >= 1328 /\ ~Caseless(t[i])) \/ t[i] = 931
Upper(t) == Cat(MapSeq(t, LAMBDA c : IF c < 1328 /\ c \in DOMAIN UpperOf THEN UpperOf[c] ELSE <<c>>))
Lower(t) == Cat(MapSeq(t, LAMBDA c : IF c < 1328 /\ c \in DOMAIN LowerOf THEN LowerOf[c] ELSE <<c>>))
(* Words separated by single spaces.                                                                     *)
NormalSpace(t) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i > Len(t) THEN acc
                      ELSE IF IsSpace(t[i]) THEN go(i + 1, acc)
                      ELSE LET j == Find(t, i, IsSpace) IN go(j, acc \o (IF acc = <<>> THEN <<>> ELSE <<32>>) \o SubSeq(t, i, j - 1))
    IN go(1, <<>>)
Translate(t, from, to) ==
    Cat(MapSeq(t, LAMBDA c : IF \E i \in 1..Len(from) : from[i] = c
                             THEN LET i == CHOOSE i \in 1..Len(from) : from[i] = c /\ \A j \in 1..(i - 1) : from[j] # c
                                  IN IF i <= Len(to) THEN <<to[i]>> ELSE <<>>
                             ELSE <<c>>))
RECURSIVE Flatten(_)
Flatten(v) == Cat(MapSeq(v, LAMBDA x : IF x.t = "arr" THEN Cat(MapSeq(x.a, Flatten)) ELSE <<x>>))
=============================================================================
