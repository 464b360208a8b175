------------------------------- MODULE Num -------------------------------
(* Numbers of the XPath data model.                                        *)
(*   integers: [neg, m]   m a Big; the library's range is that of 64 bits  *)
(*   floating point: [c |-> "fin", neg, m, e]  value (-1)^neg * m * 2^e,   *)
(*       m odd or zero (e = 0), at most 53 bits; c "inf" and "nan"         *)
(* Decimals are floating point too in this library.  Arithmetic is exact   *)
(* followed by rounding to nearest, ties to even (IEEE 754 binary64).      *)
(* Exponents beyond the modelled range give c |-> "oom".                   *)
EXTENDS Big

(* ---- integers ----------------------------------------------------------- *)
ZI(neg, m) == [neg |-> neg /\ m # <<>>, m |-> m]
ZOf(n) == IF n < 0 THEN ZI(TRUE, BigOf(-n)) ELSE ZI(FALSE, BigOf(n))
ZNeg(a) == ZI(~a.neg, a.m)
ZAdd(a, b) == IF a.neg = b.neg THEN ZI(a.neg, BAdd(a.m, b.m))
              ELSE IF BLt(a.m, b.m) THEN ZI(b.neg, BSub(b.m, a.m)) ELSE ZI(a.neg, BSub(a.m, b.m))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == ZI(a.neg # b.neg, BMul(a.m, b.m))
ZCmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
              ELSE IF a.neg THEN BCmp(b.m, a.m) ELSE BCmp(a.m, b.m)
ZQuot(a, b) == ZI(a.neg # b.neg, BDivMod(a.m, b.m).q)     \* truncates
ZRem(a, b)  == ZI(a.neg, BDivMod(a.m, b.m).r)
MaxMag == BSub(P2(63), BOne)
ZFits(a) == IF a.neg THEN BCmp(a.m, P2(63)) <= 0 ELSE BLt(a.m, P2(63))
ZText(a) == IF a.neg THEN <<45>> \o BText(a.m) ELSE BText(a.m)
ZSmall(a) == IF a.neg THEN -BSmall(a.m) ELSE BSmall(a.m)
ZIsSmall(a) == BIsSmall(a.m)

(* ---- floating point ------------------------------------------------------ *)
NAN == [c |-> "nan", neg |-> FALSE, m |-> <<>>, e |-> 0]
INF(neg) == [c |-> "inf", neg |-> neg, m |-> <<>>, e |-> 0]
FOOM == [c |-> "oom", neg |-> FALSE, m |-> <<>>, e |-> 0]
ZERO(neg) == [c |-> "fin", neg |-> neg, m |-> <<>>, e |-> 0]
EMIN == -260  EMAX == 260

RECURSIVE StripTwos(_, _)
StripTwos(m, e) ==
    IF ~BEven(m) THEN <<m, e>>
    ELSE LET d16 == BDivSmall(m, 16) IN
         IF d16.r = 0 THEN StripTwos(d16.q, e + 4)
         ELSE LET d2 == BDivSmall(m, 2) IN StripTwos(d2.q, e + 1)
Canon(neg, m, e) ==
    IF m = <<>> THEN ZERO(neg)
    ELSE LET s == StripTwos(m, e) IN
         IF s[2] < EMIN \/ s[2] > EMAX THEN FOOM
         ELSE [c |-> "fin", neg |-> neg, m |-> s[1], e |-> s[2]]

(* The double nearest to (m + sticky fraction) * 2^e.                       *)
Round(neg, m, e, sticky) ==
    LET bl == BitLen(m) IN
    IF bl <= 53 THEN Canon(neg, m, e)          \* callers with sticky supply > 54 bits
    ELSE LET k == bl - 53
             d == BDivMod(m, P2(k))
             c == BCmp(d.r, P2(k - 1))
             up == c > 0 \/ (c = 0 /\ (sticky \/ ~BEven(d.q)))
         IN Canon(neg, IF up THEN BAdd(d.q, BOne) ELSE d.q, e + k)

FOfZ(a) == IF BitLen(a.m) > 200 THEN FOOM ELSE Round(a.neg, a.m, 0, FALSE)
FOf(n) == FOfZ(ZOf(n))

(* m / d * 2^e, rounded.                                                    *)
RoundRatio(neg, m, d, e) ==
    IF m = <<>> THEN ZERO(neg)
    ELSE LET k0 == 56 + BitLen(d) - BitLen(m)
             k == IF k0 < 0 THEN 0 ELSE k0
         IN IF k > P2MAX - 1 THEN FOOM
            ELSE LET q == BDivMod(BMul(m, P2(k)), d) IN
                 IF q.r = <<>> THEN Round(neg, q.q, e - k, FALSE)
                 ELSE Round(neg, q.q, e - k, TRUE)

(* The double nearest to m * 10^x.                                          *)
FOfDec(neg, m, x) ==
    IF m = <<>> THEN ZERO(neg)
    ELSE IF Len(m) > 12 \/ x > 60 \/ x < -80 THEN FOOM
    ELSE IF x >= 0 THEN Round(neg, BMul(m, P10(x)), 0, FALSE)
    ELSE RoundRatio(neg, m, P5(-x), x)

IsFin(a) == a.c = "fin"
IsZero(a) == a.c = "fin" /\ a.m = <<>>
IsOom(a) == a.c = "oom"
FNeg(a) == IF a.c = "nan" THEN a ELSE [a EXCEPT !.neg = ~@]
FAbs(a) == [a EXCEPT !.neg = FALSE]

Shift(m, k) == IF k = 0 THEN m ELSE BMul(m, P2(k))
Min2(a, b) == IF a < b THEN a ELSE b
TooFar(a, b) == a.e - b.e > 200 \/ b.e - a.e > 200

(* a, b finite: their magnitudes over the common exponent.                  *)
Align(a, b) == LET e == IF IsZero(a) THEN b.e ELSE IF IsZero(b) THEN a.e ELSE Min2(a.e, b.e)
               IN [e |-> e, x |-> IF IsZero(a) THEN <<>> ELSE Shift(a.m, a.e - e),
                            y |-> IF IsZero(b) THEN <<>> ELSE Shift(b.m, b.e - e)]

FAdd(a, b) ==
    CASE IsOom(a) \/ IsOom(b) -> FOOM
      [] a.c = "nan" \/ b.c = "nan" -> NAN
      [] a.c = "inf" -> IF b.c = "inf" /\ a.neg # b.neg THEN NAN ELSE a
      [] b.c = "inf" -> b
      [] IsZero(a) /\ IsZero(b) -> ZERO(a.neg /\ b.neg)
      [] IsZero(a) -> b
      [] IsZero(b) -> a
      [] TooFar(a, b) -> FOOM
      [] OTHER -> LET t == Align(a, b)
                      z == ZAdd(ZI(a.neg, t.x), ZI(b.neg, t.y))
                  IN IF z.m = <<>> THEN ZERO(FALSE) ELSE Round(z.neg, z.m, t.e, FALSE)
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
    LET neg == a.neg # b.neg IN
    CASE IsOom(a) \/ IsOom(b) -> FOOM
      [] a.c = "nan" \/ b.c = "nan" -> NAN
      [] a.c = "inf" \/ b.c = "inf" -> IF IsZero(a) \/ IsZero(b) THEN NAN ELSE INF(neg)
      [] IsZero(a) \/ IsZero(b) -> ZERO(neg)
      [] OTHER -> Round(neg, BMul(a.m, b.m), a.e + b.e, FALSE)
FDiv(a, b) ==
    LET neg == a.neg # b.neg IN
    CASE IsOom(a) \/ IsOom(b) -> FOOM
      [] a.c = "nan" \/ b.c = "nan" -> NAN
      [] a.c = "inf" -> IF b.c = "inf" THEN NAN ELSE INF(neg)
      [] b.c = "inf" -> ZERO(neg)
      [] IsZero(b) -> IF IsZero(a) THEN NAN ELSE INF(neg)
      [] IsZero(a) -> ZERO(neg)
      [] OTHER -> RoundRatio(neg, a.m, b.m, a.e - b.e)
(* Remainder with the sign of the dividend, exact.                          *)
FMod(a, b) ==
    CASE IsOom(a) \/ IsOom(b) -> FOOM
      [] a.c \in {"nan", "inf"} \/ b.c = "nan" \/ IsZero(b) -> NAN
      [] b.c = "inf" \/ IsZero(a) -> a
      [] TooFar(a, b) -> FOOM
      [] OTHER -> LET t == Align(a, b) IN Canon(a.neg, BDivMod(t.x, t.y).r, t.e)

(* -1, 0, 1; both not NaN.                                                  *)
FCmp(a, b) ==
    CASE IsZero(a) /\ IsZero(b) -> 0
      [] a.c = "inf" /\ b.c = "inf" -> IF a.neg = b.neg THEN 0 ELSE IF a.neg THEN -1 ELSE 1
      [] a.c = "inf" -> IF a.neg THEN -1 ELSE 1
      [] b.c = "inf" -> IF b.neg THEN 1 ELSE -1
      [] IsZero(a) -> IF b.neg THEN 1 ELSE -1
      [] IsZero(b) -> IF a.neg THEN -1 ELSE 1
      [] a.neg # b.neg -> IF a.neg THEN -1 ELSE 1
      [] OTHER -> LET ta == BitLen(a.m) + a.e  tb == BitLen(b.m) + b.e
                      s == IF ta # tb THEN (IF ta < tb THEN -1 ELSE 1)
                           ELSE LET t == Align(a, b) IN BCmp(t.x, t.y)
                  IN IF a.neg THEN -s ELSE s
FEq(a, b) == a.c # "nan" /\ b.c # "nan" /\ FCmp(a, b) = 0
FLt(a, b) == a.c # "nan" /\ b.c # "nan" /\ FCmp(a, b) < 0

(* Integral part (towards zero) and whether a fraction remains.             *)
Parts(a) == IF a.e >= 0 THEN [i |-> Shift(a.m, a.e), frac |-> FALSE]
            ELSE [i |-> BDivMod(a.m, P2(-a.e)).q, frac |-> a.m # <<>>]
FTrunc(a) == IF ~IsFin(a) \/ a.e >= 0 THEN a ELSE Canon(a.neg, Parts(a).i, 0)
FFloor(a) == IF ~IsFin(a) \/ a.e >= 0 THEN a
             ELSE LET p == Parts(a) IN Canon(a.neg, IF a.neg THEN BAdd(p.i, BOne) ELSE p.i, 0)
FCeil(a) == FNeg(FFloor(FNeg(a)))
(* Nearest integer, ties towards positive infinity.                         *)
FRound(a) == IF ~IsFin(a) \/ a.e >= 0 THEN a
             ELSE LET d == BDivMod(a.m, P2(-a.e))
                      half == BCmp(BMulSmall(d.r, 2), P2(-a.e))
                      up == half > 0 \/ (half = 0 /\ ~a.neg)
                  IN Canon(a.neg, IF up THEN BAdd(d.q, BOne) ELSE d.q, 0)
(* Truncation to an integer (unbounded); a finite.                          *)
ZOfF(a) == ZI(a.neg, Parts(a).i)

(* ---- text ----------------------------------------------------------------- *)
(* Shortest decimal digits d1...dn and exponent x, value 0.d1...dn * 10^x,  *)
(* that read back as a; a finite, not zero.                                 *)
(* Exact: |a| = p/q.                                                        *)
Ratio(a) == IF a.e >= 0 THEN <<Shift(a.m, a.e), BOne>> ELSE <<a.m, P2(-a.e)>>
(* The decimal exponent: 10^(x-1) <= p/q < 10^x.                            *)
DecExp(p, q) ==
    LET lp == Len(BText(p))  lq == Len(BText(q))
        g == lp - lq            \* 10^(g-1) <= p/q < 10^(g+1)
        ge == IF g >= 0 THEN BCmp(p, BMul(q, P10(g))) >= 0
              ELSE BCmp(BMul(p, P10(-g)), q) >= 0
    IN IF ge THEN g + 1 ELSE g
(* n significant digits of p/q (exponent x), ties rounded up; as a Big.   *)
DigitsN(p, q, x, n) ==
    LET k == n - x
        d == IF k >= 0 THEN BDivMod(BMul(p, P10(k)), q) ELSE BDivMod(p, BMul(q, P10(-k)))
        den == IF k >= 0 THEN q ELSE BMul(q, P10(-k))
        c == BCmp(BMulSmall(d.r, 2), den)
    IN IF c >= 0 THEN BAdd(d.q, BOne) ELSE d.q
RECURSIVE StripZeros(_)
StripZeros(t) == IF Len(t) > 1 /\ t[Len(t)] = 48 THEN StripZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t
Shortest(a) ==
    LET r == Ratio(a)
        x == DecExp(r[1], r[2])
        RECURSIVE go(_)
        go(n) == LET m == DigitsN(r[1], r[2], x, n)
                     back == FOfDec(a.neg, m, x - n)
                 IN IF n >= 17 \/ back = a THEN <<BText(m), n>> ELSE go(n + 1)
        d == go(1)
        x1 == x + (Len(d[1]) - d[2])       \* rounding up may carry
    IN [d |-> StripZeros(d[1]), x |-> x1]
FmtOom(a) == IsFin(a) /\ (a.e > 250 \/ a.e < -130 \/ (a.m # <<>> /\ (BitLen(a.m) + a.e > 180 \/ BitLen(a.m) + a.e < -120)))

Zeros(n) == Tup([i \in 1..n |-> 48])
SignT(a) == IF a.neg THEN <<45>> ELSE <<>>
NaNT == S("NaN")  PInfT == S("+Infinity")  NInfT == S("-Infinity")
(* Positional notation without exponent.                                    *)
FPlain(a) ==
    CASE a.c = "nan" -> NaNT
      [] a.c = "inf" -> IF a.neg THEN NInfT ELSE PInfT
      [] IsZero(a) -> SignT(a) \o <<48>>
      [] OTHER -> LET s == Shortest(a)  n == Len(s.d) IN
                  SignT(a) \o (IF s.x <= 0 THEN <<48, 46>> \o Zeros(-s.x) \o s.d
                               ELSE IF s.x >= n THEN s.d \o Zeros(s.x - n)
                               ELSE SubSeq(s.d, 1, s.x) \o <<46>> \o SubSeq(s.d, s.x + 1, n))
(* Scientific notation: d.ddde-x                                            *)
FSci(a) ==
    CASE a.c = "nan" -> NaNT
      [] a.c = "inf" -> IF a.neg THEN NInfT ELSE PInfT
      [] IsZero(a) -> SignT(a) \o <<48, 101, 48>>
      [] OTHER -> LET s == Shortest(a)  n == Len(s.d) IN
                  SignT(a) \o <<s.d[1]>> \o (IF n = 1 THEN <<>> ELSE <<46>> \o SubSeq(s.d, 2, n))
                  \o <<101>> \o IntText(s.x - 1)
=============================================================================
