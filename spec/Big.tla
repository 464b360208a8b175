------------------------------- MODULE Big -------------------------------
(* Natural numbers of any size: little-endian sequences of limbs base      *)
(* 10000, without leading zero limbs (zero is <<>>).  TLC's own integers   *)
(* have 32 bits.                                                           *)
EXTENDS Chars

BASE == 10000

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BigOf(n \div BASE)

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE BTrim(SubSeq(a, 1, Len(a) - 1))

BCmp(a, b) ==
    IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
    ELSE LET RECURSIVE go(_)
             go(i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE go(i - 1)
         IN go(Len(a))
BLt(a, b) == BCmp(a, b) < 0

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

BAdd(a, b) ==
    LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
        RECURSIVE go(_, _, _)
        go(i, c, acc) ==
            IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
            ELSE LET s == Limb(a, i) + Limb(b, i) + c IN go(i + 1, s \div BASE, Append(acc, s % BASE))
    IN go(1, 0, <<>>)

BSub(a, b) ==           \* a >= b
    LET RECURSIVE go(_, _, _)
        go(i, c, acc) ==
            IF i > Len(a) THEN acc
            ELSE LET s == a[i] - Limb(b, i) - c
                 IN IF s < 0 THEN go(i + 1, 1, Append(acc, s + BASE)) ELSE go(i + 1, 0, Append(acc, s))
    IN BTrim(go(1, 0, <<>>))

BMulSmall(a, d) ==      \* 0 <= d < BASE
    LET RECURSIVE go(_, _, _)
        go(i, c, acc) ==
            IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
            ELSE LET s == (a[i] * d) + c IN go(i + 1, s \div BASE, Append(acc, s % BASE))
    IN IF d = 0 THEN <<>> ELSE go(1, 0, <<>>)

BMul(a, b) ==
    LET RECURSIVE go(_, _)
        go(i, acc) == IF i = 0 THEN acc
                      ELSE go(i - 1, BAdd(IF acc = <<>> THEN <<>> ELSE <<0>> \o acc, BMulSmall(a, b[i])))
    IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE go(Len(b), <<>>)

(* Quotient and remainder by a divisor 0 < d < BASE.                       *)
BDivSmall(a, d) ==
    LET RECURSIVE go(_, _, _)
        go(i, r, acc) == IF i = 0 THEN [q |-> BTrim(acc), r |-> r]
                         ELSE LET s == (r * BASE) + a[i] IN go(i - 1, s % d, <<s \div d>> \o acc)
    IN go(Len(a), 0, <<>>)

(* Long division, one limb of the quotient at a time; b # 0.               *)
BDivMod(a, b) ==
    IF BLt(a, b) THEN [q |-> <<>>, r |-> a]
    ELSE IF Len(b) = 1 THEN LET s == BDivSmall(a, b[1]) IN [q |-> s.q, r |-> BigOf(s.r)]
    ELSE LET k  == BASE \div (b[Len(b)] + 1)
             an == BMulSmall(a, k)
             bn == BMulSmall(b, k)
             n  == Len(bn)
             RECURSIVE fix(_, _, _)
             fix(q, p, r) == IF BCmp(p, r) <= 0 THEN <<q, p>> ELSE fix(q - 1, BSub(p, bn), r)
             digit(r) == IF BLt(r, bn) THEN <<0, <<>>>>
                         ELSE LET top == IF Len(r) > n THEN (r[Len(r)] * BASE) + r[Len(r) - 1] ELSE r[n]
                                  g == top \div bn[n]
                                  q == IF g > BASE - 1 THEN BASE - 1 ELSE g
                              IN fix(q, BMulSmall(bn, q), r)
             RECURSIVE go(_, _, _)
             go(i, r, acc) ==
                 IF i = 0 THEN [q |-> BTrim(acc), r |-> BDivSmall(r, k).q]
                 ELSE LET r1 == BTrim(<<an[i]>> \o r)
                          d  == digit(r1)
                      IN go(i - 1, BSub(r1, d[2]), <<d[1]>> \o acc)
         IN go(Len(an), <<>>, <<>>)

(* Decimal digits of a big number, and the number of a digit text.         *)
Pad4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
BText(a) == IF a = <<>> THEN <<48>>
            ELSE NatText(a[Len(a)]) \o Cat(Tup([i \in 1..(Len(a) - 1) |-> Pad4(a[Len(a) - i])]))
BigOfDigits(t) ==        \* t: digit characters
    LET RECURSIVE go(_, _)
        go(e, acc) == IF e <= 0 THEN acc
                      ELSE LET s == IF e > 3 THEN e - 3 ELSE 1
                               v == FoldLeft(LAMBDA a, c : (10 * a) + (c - 48), 0, SubSeq(t, s, e))
                           IN go(s - 1, Append(acc, v))
    IN BTrim(go(Len(t), <<>>))

BOne == <<1>>
BEven(a) == a = <<>> \/ a[1] % 2 = 0

(* Powers.                                                                 *)
Pow(b, n) == FoldLeft(LAMBDA acc, i : Append(acc, BMulSmall(acc[Len(acc)], b)), <<BOne>>, [i \in 1..n |-> i])
P2MAX == 420
P5MAX == 180
Pow2Tab == Pow(2, P2MAX)
Pow5Tab == Pow(5, P5MAX)
Pow10Tab == Pow(10, 120)
P2(n) == Pow2Tab[n + 1]
P5(n) == Pow5Tab[n + 1]
P10(n) == Pow10Tab[n + 1]

(* Number of binary digits.                                                *)
BitLen(a) ==
    LET RECURSIVE go(_, _)
        go(lo, hi) ==      \* P2(lo) <= a < P2(hi)
            IF hi - lo = 1 THEN hi ELSE LET mid == (lo + hi) \div 2 IN IF BLt(a, P2(mid)) THEN go(lo, mid) ELSE go(mid, hi)
    IN IF a = <<>> THEN 0 ELSE go(0, P2MAX)
(* Small value of a big number (caller ensures it is below 2^30).          *)
BSmall(a) == Limb(a, 1) + (BASE * Limb(a, 2)) + (BASE * BASE * Limb(a, 3))
BIsSmall(a) == Len(a) <= 2 \/ (Len(a) = 3 /\ a[3] <= 9)
=============================================================================
