------------------------------ MODULE MCParse ------------------------------
(* The grammar as data, read by Earley's method one token at a time, against *)
(* XParse, which the conformance checks use.  Every sequence of letters of   *)
(* an alphabet is built as long as some expression begins like it, and one   *)
(* letter further.  Checked on every sequence:                               *)
(*   it is an expression for XParse iff the grammar derives it;              *)
(*   blanks, comments and line ends between the tokens, and their absence    *)
(*   where tokens stay separate, change nothing;                             *)
(*   brackets and braces of an expression balance.                           *)
(* The sequences are asked of the real code.                                 *)
EXTENDS XParse, TLC, Json, IOUtils
CONSTANTS LEN, EMIT

(* sessions: alphabet; len letters at most                                   *)
Starts == ndJsonDeserialize(IOEnv.TRACE)

(* ---- the grammar (XPath 3.1, A.1) ------------------------------------------ *)
(* "'w": the word w.  "name": any name.  F0 F1 F2 F3: names of functions that  *)
(* take that many arguments.  I0 ... I3: these integers.  "~occ", "~step": no  *)
(* token, but the next one is no occurrence indicator / cannot begin a step.   *)
P(l, r) == [l |-> l, r |-> r]
Bin_(l, next, ops) == <<P(l, <<next>>)>> \o [i \in 1..Len(ops) |-> P(l, <<l, ops[i], next>>)]
Non_(l, next, ops) == <<P(l, <<next>>)>> \o [i \in 1..Len(ops) |-> P(l, <<next, ops[i], next>>)]
Grammar == Tup(
  << P("Expr", <<"Single">>), P("Expr", <<"Expr", ",", "Single">>),
     P("Single", <<"'for", "InBinds", "'return", "Single">>), P("Single", <<"'let", "LetBinds", "'return", "Single">>),
     P("Single", <<"'some", "InBinds", "'satisfies", "Single">>), P("Single", <<"'every", "InBinds", "'satisfies", "Single">>),
     P("Single", <<"'if", "(", "Expr", ")", "'then", "Single", "'else", "Single">>), P("Single", <<"Or">>),
     P("InBinds", <<"$", "name", "'in", "Single">>), P("InBinds", <<"InBinds", ",", "$", "name", "'in", "Single">>),
     P("LetBinds", <<"$", "name", ":=", "Single">>), P("LetBinds", <<"LetBinds", ",", "$", "name", ":=", "Single">>) >>
  \o Bin_("Or", "And", <<"'or">>) \o Bin_("And", "Comparison", <<"'and">>)
  \o Non_("Comparison", "Concat", <<"'eq", "'ne", "'lt", "'le", "'gt", "'ge", "'is", "=", "!=", "<", "<=", ">", ">=", "<<", ">>">>)
  \o Bin_("Concat", "Range", <<"||">>) \o Non_("Range", "Additive", <<"'to">>) \o Bin_("Additive", "Multiplicative", <<"+", "-">>)
  \o Bin_("Multiplicative", "Union", <<"*", "'div", "'idiv", "'mod">>) \o Bin_("Union", "Intersect", <<"|", "'union">>)
  \o Bin_("Intersect", "InstanceOf", <<"'intersect", "'except">>)
  \o << P("InstanceOf", <<"Castable">>), P("InstanceOf", <<"Castable", "'instance", "'of", "SeqType">>),
        P("Castable", <<"Cast">>), P("Castable", <<"Cast", "'castable", "'as", "SingleType">>),
        P("Cast", <<"Arrow">>), P("Cast", <<"Arrow", "'cast", "'as", "SingleType">>),
        P("SingleType", <<"name">>), P("SingleType", <<"name", "?">>),
        P("Arrow", <<"Unary">>), P("Arrow", <<"Arrow", "=>", "$", "name", "(", ")">>), P("Arrow", <<"Arrow", "=>", "$", "name", "(", "Args", ")">>),
        P("Arrow", <<"Arrow", "=>", "F1", "(", ")">>), P("Arrow", <<"Arrow", "=>", "F2", "(", "Arg", ")">>), P("Arrow", <<"Arrow", "=>", "F3", "(", "Arg", ",", "Arg", ")">>),
        P("Unary", <<"Map">>), P("Unary", <<"+", "Unary">>), P("Unary", <<"-", "Unary">>) >>
  \o Bin_("Map", "Path", <<"!">>)
  \o << P("Path", <<"/", "~step">>), P("Path", <<"/", "Relative">>), P("Path", <<"//", "Relative">>), P("Path", <<"Relative">>) >>
  \o Bin_("Relative", "Step", <<"/", "//">>)
  \o << P("Step", <<"Postfix">>), P("Step", <<"AxisStep">>),
        P("AxisStep", <<"axis", "::", "NodeTest">>), P("AxisStep", <<"NodeTest">>), P("AxisStep", <<"@", "NodeTest">>), P("AxisStep", <<"..">>),
        P("AxisStep", <<"AxisStep", "[", "Expr", "]">>),
        P("NodeTest", <<"name">>), P("NodeTest", <<"*">>), P("NodeTest", <<"wild">>), P("NodeTest", <<"KindTest">>),
        P("KindTest", <<"'node", "(", ")">>), P("KindTest", <<"'text", "(", ")">>), P("KindTest", <<"'comment", "(", ")">>),
        P("KindTest", <<"'processing-instruction", "(", ")">>), P("KindTest", <<"'processing-instruction", "(", "ncname", ")">>), P("KindTest", <<"'processing-instruction", "(", "str", ")">>),
        P("KindTest", <<"'element", "(", ")">>), P("KindTest", <<"'element", "(", "TestName", ")">>), P("KindTest", <<"'element", "(", "TestName", ",", "name", ")">>), P("KindTest", <<"'element", "(", "TestName", ",", "name", "?", ")">>),
        P("KindTest", <<"'attribute", "(", ")">>), P("KindTest", <<"'attribute", "(", "TestName", ")">>), P("KindTest", <<"'attribute", "(", "TestName", ",", "name", ")">>),
        P("TestName", <<"name">>), P("TestName", <<"*">>),
        P("Postfix", <<"Primary">>), P("Postfix", <<"Postfix", "[", "Expr", "]">>), P("Postfix", <<"Postfix", "(", ")">>), P("Postfix", <<"Postfix", "(", "Args", ")">>), P("Postfix", <<"Postfix", "?", "Key">>),
        P("Key", <<"ncname">>), P("Key", <<"int">>), P("Key", <<"*">>), P("Key", <<"Paren">>),
        P("Args", <<"Arg">>), P("Args", <<"Args", ",", "Arg">>), P("Arg", <<"Single">>), P("Arg", <<"?">>),
        P("Primary", <<"int">>), P("Primary", <<"dec">>), P("Primary", <<"dbl">>), P("Primary", <<"str">>), P("Primary", <<"$", "name">>), P("Primary", <<"Paren">>), P("Primary", <<".">>),
        P("Paren", <<"(", ")">>), P("Paren", <<"(", "Expr", ")">>),
        P("Primary", <<"F0", "(", ")">>), P("Primary", <<"F1", "(", "Arg", ")">>), P("Primary", <<"F2", "(", "Arg", ",", "Arg", ")">>), P("Primary", <<"F3", "(", "Arg", ",", "Arg", ",", "Arg", ")">>),
        P("Primary", <<"F0", "#", "I0">>), P("Primary", <<"F1", "#", "I1">>), P("Primary", <<"F2", "#", "I2">>), P("Primary", <<"F3", "#", "I3">>),
        P("Primary", <<"'function", "(", ")", "Body">>), P("Primary", <<"'function", "(", "Params", ")", "Body">>),
        P("Primary", <<"'function", "(", ")", "'as", "SeqType", "Body">>), P("Primary", <<"'function", "(", "Params", ")", "'as", "SeqType", "Body">>),
        P("Params", <<"Param">>), P("Params", <<"Params", ",", "Param">>), P("Param", <<"$", "name">>), P("Param", <<"$", "name", "'as", "SeqType">>),
        P("Body", <<"{", "}">>), P("Body", <<"{", "Expr", "}">>),
        P("Primary", <<"'map", "{", "}">>), P("Primary", <<"'map", "{", "Entries", "}">>), P("Entries", <<"Single", ":", "Single">>), P("Entries", <<"Entries", ",", "Single", ":", "Single">>),
        P("Primary", <<"[", "]">>), P("Primary", <<"[", "Members", "]">>), P("Members", <<"Single">>), P("Members", <<"Members", ",", "Single">>), P("Primary", <<"'array", "Body">>),
        P("Primary", <<"?", "Key">>),
        P("SeqType", <<"'empty-sequence", "(", ")">>), P("SeqType", <<"ItemType", "~occ">>), P("SeqType", <<"ItemType", "?">>), P("SeqType", <<"ItemType", "*">>), P("SeqType", <<"ItemType", "+">>),
        P("ItemType", <<"KindTest">>), P("ItemType", <<"'item", "(", ")">>), P("ItemType", <<"name">>), P("ItemType", <<"(", "ItemType", ")">>),
        P("ItemType", <<"'function", "(", "*", ")">>), P("ItemType", <<"'function", "(", ")", "'as", "SeqType">>), P("ItemType", <<"'function", "(", "Types", ")", "'as", "SeqType">>),
        P("Types", <<"SeqType">>), P("Types", <<"Types", ",", "SeqType">>),
        P("ItemType", <<"'map", "(", "*", ")">>), P("ItemType", <<"'map", "(", "name", ",", "SeqType", ")">>), P("ItemType", <<"'array", "(", "*", ")">>), P("ItemType", <<"'array", "(", "SeqType", ")">>) >>)
E(S0) == {x : x \in S0}        \* (evaluated at once, not when needed)
Left == {Grammar[i].l : i \in 1..Len(Grammar)}
RulesOf == Fast([n \in Left |-> E({i \in 1..Len(Grammar) : Grammar[i].l = n})])
KeyWords == Fast([y \in {"'" \o x : x \in Words} |-> CHOOSE x \in Words : "'" \o x = y])

Fn(tok, k) == tok.k = "name" /\ tok.w \notin Reserved /\ FnCheck(WithPrefix(tok.v, FnP), k) = "ok"
Match(s, tok) ==
    IF s \in DOMAIN KeyWords THEN tok.k = "name" /\ tok.w = KeyWords[s]
    ELSE CASE s = "ncname" -> tok.k = "name" /\ ~HasColon(tok.v)
           [] s = "axis" -> tok.k = "name" /\ tok.w \in Axes
           [] s = "F0" -> Fn(tok, 0) [] s = "F1" -> Fn(tok, 1) [] s = "F2" -> Fn(tok, 2) [] s = "F3" -> Fn(tok, 3)
           [] s = "I0" -> tok.k = "int" /\ tok.v = <<48>> [] s = "I1" -> tok.k = "int" /\ tok.v = <<49>>
           [] s = "I2" -> tok.k = "int" /\ tok.v = <<50>> [] s = "I3" -> tok.k = "int" /\ tok.v = <<51>>
           [] OTHER -> tok.k = s
StepStart == {"name", "wild", "*", "@", ".", "..", "(", "[", "$", "?", "int", "dec", "dbl", "str"}
Ahead(s, tok) == IF s = "~occ" THEN tok.k \notin {"?", "*", "+"} ELSE tok.k \notin StepStart
Looks == {"~occ", "~step"}

(* ---- Earley's sets ------------------------------------------------------------ *)
(* An item <<r, d, o>>: d symbols of rule r read, the first of them in set o.      *)
Dot(it) == LET r == Grammar[it[1]].r IN IF it[2] < Len(r) THEN r[it[2] + 1] ELSE ""
Over(it) == <<it[1], it[2] + 1, it[3]>>
RECURSIVE Close(_, _, _, _, _)
(* cs: finished sets; look: the next token, or none known                      *)
Close(cs, done, todo, known, look) ==
    IF todo = {} THEN done
    ELSE LET k == Len(cs) + 1
             from(it) == LET s == Dot(it) IN
                 IF s = "" THEN (IF it[3] = k THEN {} ELSE {Over(q) : q \in {q \in cs[it[3]] : Dot(q) = Grammar[it[1]].l}})
                 ELSE IF s \in Left THEN {<<r, 0, k>> : r \in RulesOf[s]}
                 ELSE IF s \in Looks /\ known THEN (IF Ahead(s, look) THEN {Over(it)} ELSE {})
                 ELSE {}
             d == E(done \cup todo)
         IN Close(cs, d, E(E(UNION {E(from(it)) : it \in todo}) \ d), known, look)
Pending(set) == {it \in set : Dot(it) \in Looks}
Settle(c, tok) == LET n == Len(c)  front == SubSeq(c, 1, n - 1) IN
                  Append(front, Close(front, c[n] \ Pending(c[n]), Pending(c[n]), TRUE, tok))
Scan(c, tok) == LET s == Tup(Settle(c, tok))
                    moved == {Over(it) : it \in {it \in s[Len(s)] : LET y == Dot(it) IN y # "" /\ y \notin Left /\ y \notin Looks /\ Match(y, tok)}}
                IN Append(s, Close(s, {}, moved, FALSE, tok))
Derived(c) == LET s == Settle(c, Sym("EOF")) IN \E it \in s[Len(s)] : it[3] = 1 /\ Dot(it) = "" /\ Grammar[it[1]].l = "Expr"
Alive(c) == c[Len(c)] # {}
Start == <<Close(<<>>, {}, {<<r, 0, 1>> : r \in RulesOf["Expr"]}, FALSE, Sym("EOF"))>>

VARIABLES sid, vLetters,      \* letters so far
          vChart        \* Earley's sets
vars == <<sid, vLetters, vChart>>
View == <<sid, vLetters>>
A == Starts[sid].alpha
TokensOf(t) == LET l == Tokens(t) IN SubSeq(l, 1, Len(l) - 1)
Letter == [s \in 1..Len(Starts) |-> [i \in 1..Len(Starts[s].alpha) |-> TokensOf(Starts[s].alpha[i])]]

Joined(sep) == Cat(Tup([i \in 1..Len(vLetters) |-> IF i = 1 THEN A[vLetters[1]] ELSE sep \o A[vLetters[i]]]))
Separate(a, b) == LET l == Tokens(a \o b) IN l = TokensOf(a) \o Tokens(b)
Tight == Cat(Tup([i \in 1..Len(vLetters) |-> IF i = 1 THEN A[vLetters[1]] ELSE IF Separate(A[vLetters[i - 1]], A[vLetters[i]]) THEN A[vLetters[i]] ELSE <<32>> \o A[vLetters[i]]]))
Sep2 == <<10>> \o S("(: (:)) :) ' :)") \o <<9>>

Init == sid \in 1..Len(Starts) /\ vLetters = <<>> /\ vChart = Start
Feed == /\ Len(vLetters) < (IF Starts[sid].len = 0 THEN LEN ELSE Starts[sid].len) /\ Alive(vChart)
        /\ \E i \in 1..Len(A) :
             /\ vLetters' = Append(vLetters, i)
             /\ vChart' = FoldLeft(LAMBDA x, tok : IF Alive(x) THEN Scan(x, tok) ELSE x, vChart, Letter[sid][i])
        /\ UNCHANGED sid
Next == Feed
Spec == Init /\ [][Next]_vars

Plain == Joined(<<32>>)
Ok1 == Alive(vChart) /\ Derived(vChart)
Agree == vLetters # <<>> => LET e == ParseX(Plain) IN e.k = "OOM" \/ (e.k # "ERR" <=> Ok1)
Spacing == vLetters # <<>> => LET e == ParseX(Plain)  f == ParseX(Sep2 \o Joined(Sep2) \o Sep2)  g == ParseX(Tight) IN
                       /\ e.k = "OOM" \/ f.k = "OOM" \/ e = f
                       /\ e.k = "OOM" \/ g.k = "OOM" \/ e = g
Count(k) == LET ts == Tokens(Plain) IN Len(SelectSeq(ts, LAMBDA t : t.k = k))
Balance == Ok1 => Count("(") = Count(")") /\ Count("[") = Count("]") /\ Count("{") = Count("}")
Printed == vLetters # <<>> /\ EMIT => PrintT(<<"@@", "TOK", sid, IF Ok1 THEN 1 ELSE 0, ToJson(<<Plain, Tight>>)>>)
=============================================================================
