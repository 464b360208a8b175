------------------------------ MODULE Chars ------------------------------
(* Text is a sequence of Unicode code points (integers).                   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, NameTables

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

(* Makes TLC tabulate a function once instead of computing it at every use. *)
Fast(f) == f @@ <<>>

CodeTab == Fast([c \in {SubSeq(Ascii, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c)])

(* Forces TLC to turn a function over 1..n into a tuple.                   *)
Tup(f) == f \o <<>>

(* S("abc"): the code points of an ASCII string constant.                  *)
S(str) == Tup([i \in 1..Len(str) |-> CodeTab[SubSeq(str, i, i)]])

TAB == 9  LF == 10  CR == 13  SP == 32

IsSpace(c) == c \in {32, 9, 10, 13}
IsDigit(c) == 48 <= c /\ c <= 57
IsHex(c)   == IsDigit(c) \/ (97 <= c /\ c <= 102) \/ (65 <= c /\ c <= 70)
IsAlpha(c) == (97 <= c /\ c <= 122) \/ (65 <= c /\ c <= 90)
HexVal(c)  == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

RECURSIVE BinIn(_, _, _, _)
BinIn(c, rs, lo, hi) ==
    IF lo > hi THEN FALSE
    ELSE LET mid == (lo + hi) \div 2 IN
         IF c < rs[mid][1] THEN BinIn(c, rs, lo, mid - 1)
         ELSE IF c > rs[mid][2] THEN BinIn(c, rs, mid + 1, hi)
         ELSE TRUE
InRanges(c, rs) == BinIn(c, rs, 1, Len(rs))

IsNameStart(c) == IF c < 128 THEN IsAlpha(c) \/ c = 95 \/ c = 58
                  ELSE InRanges(c, NameStartRanges)
IsNameChar(c)  == IF c < 128 THEN IsAlpha(c) \/ IsDigit(c) \/ c \in {95, 58, 46, 45}
                  ELSE InRanges(c, NameCharRanges)

(* Smallest j >= i with P(t[j]); Len(t)+1 if there is none.                *)
Find(t, i, P(_)) ==
    LET RECURSIVE go(_)
        go(j) == IF j > Len(t) THEN j ELSE IF P(t[j]) THEN j ELSE go(j + 1)
    IN go(i)

SkipSpaces(t, i) == Find(t, i, LAMBDA c : ~IsSpace(c))

(* Does pattern p occur in t at position i?                                *)
At(t, i, p) == /\ i + Len(p) - 1 <= Len(t)
               /\ \A k \in 1..Len(p) : t[i + k - 1] = p[k]

(* Smallest j >= i where p occurs; 0 if nowhere.                           *)
RECURSIVE FindPat(_, _, _)
FindPat(t, i, p) == IF i + Len(p) - 1 > Len(t) THEN 0
                    ELSE IF At(t, i, p) THEN i ELSE FindPat(t, i + 1, p)

AllOf(t, P(_)) == \A k \in 1..Len(t) : P(t[k])

(* End (exclusive) of the Name starting at i; i itself if none starts.     *)
NameEnd(t, i) == IF i > Len(t) \/ ~IsNameStart(t[i]) THEN i
                 ELSE Find(t, i + 1, LAMBDA c : ~IsNameChar(c))

(* Concatenation of a sequence of texts.                                   *)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

(* f applied to every element.                                             *)
MapSeq(s, f(_)) == Tup([i \in 1..Len(s) |-> f(s[i])])

Filter(s, P(_)) == SelectSeq(s, P)

(* -1, 0, 1 : comparison of two texts by code points.                      *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
CmpText(a, b) == CmpFrom(a, b, 1)

(* Text of a natural number / integer.                                     *)
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
IntText(n) == IF n < 0 THEN <<45>> \o NatText(-n) ELSE NatText(n)
=============================================================================
