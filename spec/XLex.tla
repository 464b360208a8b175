------------------------------- MODULE XLex -------------------------------
(* Lexical structure of XPath.  A token is [k, v, w]:                       *)
(*   k "name"  v the NCName or QName text   w the word itself when it is    *)
(*             one the grammar knows, "" otherwise                          *)
(*   k "wild"  name tests a:* (v <<97>>, w "p") and *:a (w "l")             *)
(*   k "str" "int" "dec" "dbl"   v the value / the digits                   *)
(*   k "EOF", "ERR", "OOM"; any other token is its own kind.                *)
EXTENDS Chars

Words == {"and", "or", "div", "idiv", "mod", "eq", "ne", "lt", "le", "gt", "ge", "is", "to",
          "union", "intersect", "except", "instance", "of", "treat", "castable", "cast", "as",
          "for", "let", "some", "every", "in", "return", "satisfies", "if", "then", "else",
          "array", "attribute", "comment", "document-node", "element", "empty-sequence", "function",
          "item", "map", "namespace-node", "node", "processing-instruction", "schema-attribute",
          "schema-element", "switch", "text", "typeswitch",
          "ancestor", "ancestor-or-self", "child", "descendant", "descendant-or-self", "following",
          "following-sibling", "namespace", "parent", "preceding", "preceding-sibling", "self", "Q"}
WordOf == Fast([t \in {S(w) : w \in Words} |-> CHOOSE w \in Words : S(w) = t])
WordTexts == DOMAIN WordOf
TheWord(t) == IF t \in WordTexts THEN WordOf[t] ELSE ""

Tok(k, v, w) == [k |-> k, v |-> v, w |-> w]
Sym(k) == Tok(k, <<>>, "")

(* Names in XPath follow the fifth edition of XML 1.0, those in documents   *)
(* (NameTables) the first.                                                  *)
XNameStart == <<<<192, 214>>, <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>, <<8204, 8205>>,
                <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>,
                <<65536, 983039>>>>
IsNCStart(c) == IF c < 128 THEN IsAlpha(c) \/ c = 95 ELSE InRanges(c, XNameStart)
IsNCChar(c) == IF c < 128 THEN IsAlpha(c) \/ IsDigit(c) \/ c \in {95, 46, 45}
               ELSE InRanges(c, XNameStart) \/ c = 183 \/ (768 <= c /\ c <= 879) \/ c \in {8255, 8256}
NCEnd(t, i) == IF i > Len(t) \/ ~IsNCStart(t[i]) THEN i ELSE Find(t, i + 1, LAMBDA c : ~IsNCChar(c))

Ch(t, i) == IF i <= Len(t) THEN t[i] ELSE -1

(* Position after the comment whose "(:" ends before i; 0: unterminated.    *)
CommentEnd(t, i0) ==
    LET RECURSIVE go(_, _)
        go(i, depth) ==
            IF depth = 0 THEN i
            ELSE IF i > Len(t) THEN 0
            ELSE IF t[i] = 40 /\ Ch(t, i + 1) = 58 THEN go(i + 2, depth + 1)
            ELSE IF t[i] = 58 /\ Ch(t, i + 1) = 41 THEN go(i + 2, depth - 1)
            ELSE go(i + 1, depth)
    IN go(i0, 1)

(* Position after blanks and comments; as given where a comment has no end. *)
RECURSIVE SkipBlank(_, _)
SkipBlank(t, i) ==
    LET j == SkipSpaces(t, i) IN
    IF Ch(t, j) = 40 /\ Ch(t, j + 1) = 58
    THEN LET e == CommentEnd(t, j + 2) IN IF e = 0 THEN j ELSE SkipBlank(t, e)
    ELSE j

(* String literal starting at i (the quote): [v, n] n position after; n=0 unterminated *)
StrLit(t, i0) ==
    LET q == t[i0]
        RECURSIVE go(_, _)
        go(i, acc) == IF i > Len(t) THEN [v |-> acc, n |-> 0]
                      ELSE IF t[i] # q THEN go(i + 1, Append(acc, t[i]))
                      ELSE IF Ch(t, i + 1) = q THEN go(i + 2, Append(acc, q))
                      ELSE [v |-> acc, n |-> i + 1]
    IN go(i0 + 1, <<>>)

DigitsEnd(t, i) == Find(t, i, LAMBDA c : ~IsDigit(c))
(* Numeric literal at i: token and position after.                          *)
NumLit(t, i) ==
    LET d1 == DigitsEnd(t, i)
        dot == Ch(t, d1) = 46
        d2 == IF dot THEN DigitsEnd(t, d1 + 1) ELSE d1
        exp == Ch(t, d2) \in {69, 101}
        sg == IF exp /\ Ch(t, d2 + 1) \in {43, 45} THEN d2 + 2 ELSE d2 + 1
        d3 == IF exp THEN DigitsEnd(t, sg) ELSE d2
        k == IF exp THEN "dbl" ELSE IF dot THEN "dec" ELSE "int"
    IN IF exp /\ d3 = sg THEN [tok |-> Sym("ERR"), n |-> d3]
       ELSE IF IsNCStart(IF Ch(t, d3) = -1 THEN 32 ELSE Ch(t, d3))
            THEN [tok |-> Sym("OOM"), n |-> d3]        \* 1a: left open
       ELSE [tok |-> Tok(k, SubSeq(t, i, d3 - 1), ""), n |-> d3]

(* Symbols, longest first.                                                  *)
SymAt(t, i) ==
    LET c == t[i]  d == Ch(t, i + 1) IN
    CASE c = 47 -> IF d = 47 THEN "//" ELSE "/"
      [] c = 58 -> IF d = 58 THEN "::" ELSE IF d = 61 THEN ":=" ELSE IF d = 42 THEN ":*" ELSE ":"
      [] c = 61 -> IF d = 62 THEN "=>" ELSE "="
      [] c = 33 -> IF d = 61 THEN "!=" ELSE "!"
      [] c = 124 -> IF d = 124 THEN "||" ELSE "|"
      [] c = 60 -> IF d = 61 THEN "<=" ELSE IF d = 60 THEN "<<" ELSE "<"
      [] c = 62 -> IF d = 61 THEN ">=" ELSE IF d = 62 THEN ">>" ELSE ">"
      [] c = 44 -> "," [] c = 63 -> "?" [] c = 43 -> "+" [] c = 45 -> "-" [] c = 42 -> "*"
      [] c = 36 -> "$" [] c = 91 -> "[" [] c = 93 -> "]" [] c = 40 -> "(" [] c = 41 -> ")"
      [] c = 64 -> "@" [] c = 35 -> "#" [] c = 123 -> "{" [] c = 125 -> "}"
      [] c = 46 -> IF d = 46 THEN ".." ELSE "."
      [] OTHER -> "ERR"

(* All tokens.  Blanks and comments around a colon between names are left   *)
(* open (OOM).                                                              *)
Tokens(t) ==
    LET RECURSIVE go(_, _)
        go(i0, acc) ==
            LET i == SkipSpaces(t, i0) IN
            IF i > Len(t) THEN Append(acc, Sym("EOF"))
            ELSE LET c == t[i] IN
            IF c = 0 THEN Append(acc, Sym("OOM"))
            ELSE IF c = 40 /\ Ch(t, i + 1) = 58
            THEN LET e == CommentEnd(t, i + 2) IN IF e = 0 THEN Append(acc, Sym("ERR")) ELSE go(e, acc)
            ELSE IF IsNCStart(c)
            THEN LET e == NCEnd(t, i)
                     q == IF Ch(t, e) = 58 THEN NCEnd(t, e + 1) ELSE e
                 IN IF c = 81 /\ e = i + 1 /\ Ch(t, e) = 123 THEN Append(acc, Sym("OOM"))
                    ELSE IF Ch(t, e) = 58 /\ q > e + 1 THEN go(q, Append(acc, Tok("name", SubSeq(t, i, q - 1), "")))
                    ELSE IF Ch(t, e) = 58 /\ Ch(t, e + 1) = 42 THEN go(e + 2, Append(acc, Tok("wild", SubSeq(t, i, e - 1), "p")))
                    ELSE LET nx == SkipBlank(t, e) IN
                         IF nx > e /\ Ch(t, nx) = 58 /\ Ch(t, nx + 1) \notin {58, 61} THEN Append(acc, Sym("OOM"))
                         ELSE IF Ch(t, e) = 58 /\ Ch(t, e + 1) \notin {58, 61} THEN Append(acc, Sym("OOM"))
                         ELSE go(e, Append(acc, Tok("name", SubSeq(t, i, e - 1), TheWord(SubSeq(t, i, e - 1)))))
            ELSE IF c \in {34, 39}
            THEN LET s == StrLit(t, i) IN
                 IF s.n = 0 THEN Append(acc, Sym("ERR")) ELSE go(s.n, Append(acc, Tok("str", s.v, "")))
            ELSE IF IsDigit(c) \/ (c = 46 /\ IsDigit(Ch(t, i + 1)))
            THEN LET n == NumLit(t, i) IN
                 IF n.tok.k \in {"ERR", "OOM"} THEN Append(acc, n.tok) ELSE go(n.n, Append(acc, n.tok))
            ELSE IF c = 42 /\ Ch(t, i + 1) = 58
            THEN LET e == NCEnd(t, i + 2) IN
                 IF e > i + 2 THEN go(e, Append(acc, Tok("wild", SubSeq(t, i + 2, e - 1), "l")))
                 ELSE Append(acc, Sym("OOM"))
            ELSE LET s == SymAt(t, i)
                     nx == IF c = 42 THEN SkipBlank(t, i + 1) ELSE 0
                 IN
                 IF nx > i + 1 /\ Ch(t, nx) = 58 /\ Ch(t, nx + 1) \notin {58, 61} THEN Append(acc, Sym("OOM"))
                 ELSE IF s = "ERR" THEN Append(acc, Sym("ERR"))
                 ELSE IF s = ":*" THEN Append(acc, Sym("OOM"))
                 ELSE go(i + Len(s), Append(acc, Sym(s)))
    IN go(1, <<>>)
=============================================================================
