------------------------------- MODULE Sax -------------------------------
(* The tokeniser: one call of raw_token is one step of a state machine     *)
(* whose state is the (line-end normalised) text, the position in it, and  *)
(* the name of a self-closed element whose end tag is still owed.          *)
EXTENDS Chars

(* -- XML 1.0, 2.11: CRLF and CR become LF.                                *)
LineEnds(t) ==
    LET idx == SelectSeq([i \in 1..Len(t) |-> i],
                 LAMBDA i : ~(t[i] = LF /\ i > 1 /\ t[i - 1] = CR))
    IN Tup([k \in 1..Len(idx) |-> IF t[idx[k]] = CR THEN LF ELSE t[idx[k]]])

(* -- References ---------------------------------------------------------- *)
(* U+3013 stands for a character reference to no Unicode character.        *)
GETA == 12307
ValidCp(n) == n <= 1114111 /\ ~(55296 <= n /\ n <= 57343)

RECURSIVE Radix(_, _, _, _)
Radix(ds, i, base, acc) ==       \* capped above the Unicode range
    IF i > Len(ds) THEN acc
    ELSE LET n == acc * base + HexVal(ds[i])
         IN Radix(ds, i + 1, base, IF n > 2000000 THEN 2000000 ELSE n)
(* Code point 0 is outside XML altogether (and outside the model).         *)
CpOf(ds, base) == LET n == Radix(ds, 1, base, 0) IN IF ValidCp(n) THEN n ELSE GETA

NonZero(c) == IF c = 0 THEN <<>> ELSE <<c>>

EntGt == S("gt")  EntLt == S("lt")  EntQuot == S("quot")
EntApos == S("apos")  EntAmp == S("amp")

(* The replacement of the reference whose text between & and ; is r:       *)
(* <<>> if r is not the inside of a well-formed reference.                 *)
RefValue(r) ==
    CASE r = EntGt -> <<62>> [] r = EntLt -> <<60>> [] r = EntQuot -> <<34>>
      [] r = EntApos -> <<39>> [] r = EntAmp -> <<38>>
      [] Len(r) >= 3 /\ r[1] = 35 /\ r[2] = 120 /\ AllOf(SubSeq(r, 3, Len(r)), IsHex)
           -> NonZero(CpOf(SubSeq(r, 3, Len(r)), 16))
      [] Len(r) >= 2 /\ r[1] = 35 /\ AllOf(SubSeq(r, 2, Len(r)), IsDigit)
           -> NonZero(CpOf(SubSeq(r, 2, Len(r)), 10))
      [] Len(r) >= 1 /\ NameEnd(r, 1) = Len(r) + 1 -> <<38>> \o r \o <<59>>
      [] OTHER -> <<>>

(* An & that plainly begins no reference, because neither a name nor a #   *)
(* nor another & follows, or because neither ; nor & follows the name,     *)
(* stands for itself.  About other malformed references the model says     *)
(* nothing (see DESIGN.md).                                                *)
Bare(t, j) == LET e == NameEnd(t, j + 1) IN
              j = Len(t) \/ (IF e = j + 1 THEN t[e] \notin {35, 38} ELSE e > Len(t) \/ t[e] \notin {38, 59})
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(t, i, acc) ==
    LET j == Find(t, i, LAMBDA c : c = 38)
        acc1 == acc \o SubSeq(t, i, j - 1)
    IN IF j > Len(t) THEN [ok |-> TRUE, v |-> acc1]
       ELSE LET e == Find(t, j, LAMBDA c : c = 59)
                r == SubSeq(t, j + 1, e - 1)
                v == RefValue(r)
            IN IF Bare(t, j) THEN DecodeFrom(t, j + 1, Append(acc1, 38))
               ELSE IF e > Len(t) \/ v = <<>> THEN [ok |-> FALSE, v |-> <<>>]
               ELSE DecodeFrom(t, e + 1, acc1 \o v)
Decode(t) == IF \A i \in 1..Len(t) : t[i] # 38 THEN [ok |-> TRUE, v |-> t]
             ELSE DecodeFrom(t, 1, <<>>)

(* -- Tokens --------------------------------------------------------------- *)
(* k: S start, E end, T text, P instruction, C comment, D directive;       *)
(* EOF; ERR malformed; OOM outside the model (bad reference).              *)
STok(k, n, v, a) == [k |-> k, n |-> n, v |-> v, a |-> a]
Res(tok, i) == [tok |-> tok, i |-> i, pend |-> <<>>]
SErr == Res(STok("ERR", <<>>, <<>>, <<>>), 0)
SOom == Res(STok("OOM", <<>>, <<>>, <<>>), 0)

CDEnd == S("]]>")  PIEnd == S("?>")  CoEnd == S("-->")  CDBeg == S("[CDATA[")  CoBeg == S("--")

RECURSIVE Brackets(_, _, _)
Brackets(t, i, lvl) ==           \* position of the bracket closing level 1, or 0
    IF i > Len(t) THEN 0
    ELSE IF t[i] = 60 THEN Brackets(t, i + 1, lvl + 1)
    ELSE IF t[i] = 62 THEN (IF lvl = 1 THEN i ELSE Brackets(t, i + 1, lvl - 1))
    ELSE Brackets(t, i + 1, lvl)

(* Attributes and end of the start tag of `name`; i is where the previous  *)
(* name or attribute value ended.                                          *)
RECURSIVE Attrs(_, _, _, _, _)
Attrs(t, i, name, as, bad) ==
    LET j == SkipSpaces(t, i) IN
    IF j > Len(t) THEN SErr
    ELSE IF t[j] = 62 THEN IF bad THEN SOom ELSE Res(STok("S", name, <<>>, as), j + 1)
    ELSE IF t[j] = 47
         THEN IF j + 1 <= Len(t) /\ t[j + 1] = 62
              THEN IF bad THEN SOom
                   ELSE [tok |-> STok("S", name, <<>>, as), i |-> j + 2, pend |-> name]
              ELSE SErr
    ELSE LET e == NameEnd(t, j)
             q == SkipSpaces(t, e)
             v == SkipSpaces(t, q + 1)
         IN IF e = j \/ j = i THEN SErr           \* no name, or no white space before it
            ELSE IF q > Len(t) \/ t[q] # 61 THEN SErr
            ELSE IF v > Len(t) \/ t[v] \notin {34, 39} THEN SErr
            ELSE LET c == Find(t, v + 1, LAMBDA x : x = t[v])
                     d == Decode(SubSeq(t, v + 1, c - 1))
                 IN IF c > Len(t) THEN SErr
                    ELSE Attrs(t, c + 1, name,
                               Append(as, [n |-> SubSeq(t, j, e - 1), v |-> d.v]), bad \/ ~d.ok)

(* The token at position i of t.                                           *)
SaxAt(t, i) ==
    IF i > Len(t) THEN Res(STok("EOF", <<>>, <<>>, <<>>), i)
    ELSE IF t[i] # 60
    THEN LET j == Find(t, i, LAMBDA c : c = 60)
             d == Decode(SubSeq(t, i, j - 1))
         IN IF d.ok THEN Res(STok("T", <<>>, d.v, <<>>), j) ELSE SOom
    ELSE IF i = Len(t) THEN SErr
    ELSE LET c == t[i + 1] IN
         CASE c = 47 ->                                        \* </name>
                LET e == NameEnd(t, i + 2)  g == SkipSpaces(t, e)
                IN IF e = i + 2 \/ g > Len(t) \/ t[g] # 62 THEN SErr
                   ELSE Res(STok("E", SubSeq(t, i + 2, e - 1), <<>>, <<>>), g + 1)
           [] c = 63 ->                                        \* <?target inst?>
                LET e == NameEnd(t, i + 2)  b == SkipSpaces(t, e)  z == FindPat(t, b, PIEnd)
                IN IF z = 0 THEN SErr
                   ELSE IF e = i + 2 \/ (b = e /\ z # e) THEN SOom   \* no target / no space after it
                   ELSE Res(STok("P", SubSeq(t, i + 2, e - 1), SubSeq(t, b, z - 1), <<>>), z + 2)
           [] c = 33 ->
                IF At(t, i + 2, CoBeg)
                THEN LET z == FindPat(t, i + 4, CoEnd)
                     IN IF z = 0 THEN SErr
                        ELSE Res(STok("C", <<>>, SubSeq(t, i + 4, z - 1), <<>>), z + 3)
                ELSE IF At(t, i + 2, CDBeg)
                THEN LET z == FindPat(t, i + 9, CDEnd)
                     IN IF z = 0 THEN SErr
                        ELSE Res(STok("T", <<>>, SubSeq(t, i + 9, z - 1), <<>>), z + 3)
                ELSE IF i + 2 > Len(t) THEN SErr
                ELSE IF t[i + 2] \in {45, 91} THEN SErr
                ELSE IF t[i + 2] \in {60, 62} THEN SOom          \* <!> : no directive at all
                ELSE LET z == Brackets(t, i + 2, 1)
                     IN IF z = 0 THEN SErr
                        ELSE Res(STok("D", <<>>, SubSeq(t, i, z), <<>>), z + 1)
           [] OTHER ->                                         \* <name attr="v" ... >
                LET e == NameEnd(t, i + 1)
                IN IF e = i + 1 THEN SErr
                   ELSE Attrs(t, e, SubSeq(t, i + 1, e - 1), <<>>, FALSE)

(* The state machine: [t, i, pend] --raw_token--> token and new state.     *)
SaxInit(txt) == [t |-> LineEnds(txt), i |-> 1, pend |-> <<>>]
SaxStep(s) ==
    IF s.pend # <<>>
    THEN [tok |-> STok("E", s.pend, <<>>, <<>>), s |-> [s EXCEPT !.pend = <<>>]]
    ELSE LET r == SaxAt(s.t, s.i)
         IN [tok |-> r.tok, s |-> [s EXCEPT !.i = r.i, !.pend = r.pend]]

RECURSIVE SaxAllFrom(_, _)
SaxAllFrom(s, acc) ==
    LET r == SaxStep(s) IN
    IF r.tok.k = "EOF" THEN [toks |-> acc, end |-> "eof"]
    ELSE IF r.tok.k = "ERR" THEN [toks |-> acc, end |-> "err"]
    ELSE IF r.tok.k = "OOM" THEN [toks |-> acc, end |-> "oom"]
    ELSE SaxAllFrom(r.s, Append(acc, r.tok))
SaxAll(txt) == SaxAllFrom(SaxInit(txt), <<>>)
=============================================================================
