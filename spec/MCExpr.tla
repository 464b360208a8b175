------------------------------- MODULE MCExpr ------------------------------
(* Operator precedence.  Chains of operands and operators are built one      *)
(* operator at a time; a chain is read by its precedence table: the operator *)
(* binding least tightly (the last of them when it associates to the left)   *)
(* splits it, and each side is put in parentheses.  Checked: the grammar     *)
(* gives the chain and its parenthesised form the same expression, whatever  *)
(* blanks and comments stand between the tokens.  Chains in which two        *)
(* operators that do not associate meet are no expressions.                  *)
EXTENDS XParse, TLC, Json, IOUtils
CONSTANTS LEN, EMIT

(* level, text; pre: sign before an operand, post: after an operand          *)
Ops == << [v |-> 1, t |-> ","], [v |-> 2, t |-> "or"], [v |-> 3, t |-> "and"],
          [v |-> 4, t |-> "="], [v |-> 4, t |-> "lt"], [v |-> 4, t |-> "is"], [v |-> 4, t |-> ">>"], [v |-> 4, t |-> "!="],
          [v |-> 5, t |-> "||"], [v |-> 6, t |-> "to"], [v |-> 7, t |-> "+"], [v |-> 7, t |-> "-"],
          [v |-> 8, t |-> "*"], [v |-> 8, t |-> "div"], [v |-> 8, t |-> "idiv"], [v |-> 8, t |-> "mod"],
          [v |-> 9, t |-> "|"], [v |-> 9, t |-> "union"], [v |-> 10, t |-> "intersect"], [v |-> 10, t |-> "except"],
          [v |-> 11, t |-> "instance of xs:integer"], [v |-> 13, t |-> "castable as xs:double?"], [v |-> 14, t |-> "cast as xs:string"],
          [v |-> 15, t |-> "=> count()"], [v |-> 16, t |-> "-"], [v |-> 17, t |-> "!"], [v |-> 18, t |-> "/"] >>
Post == {i \in 1..Len(Ops) : Ops[i].v \in 11..15}
Pre == {i \in 1..Len(Ops) : Ops[i].v = 16}
Infix == (1..Len(Ops)) \ (Post \cup Pre)
NonAssocLevels == {4, 6, 11, 13, 14}

VARIABLES vChain,    \* sequence of elements: positive operator numbers, 0 an operand
          vGap    \* how blanks are written
vars == <<vChain, vGap>>
(* Operand k is the name test a, b, c ... : a step, so that "/" may follow.   *)
NOps == Len(SelectSeq(vChain, LAMBDA i : i # 0))
Complete == IF vChain = <<>> THEN FALSE ELSE vChain[Len(vChain)] = 0 \/ vChain[Len(vChain)] \in Post

Init == vChain = <<>> /\ vGap \in {1, 2}
Open == IF vChain = <<>> THEN TRUE ELSE vChain[Len(vChain)] \in Infix \cup Pre
AddSign == Open /\ NOps < LEN /\ \E i \in Pre : vChain' = Append(vChain, i) /\ UNCHANGED vGap
AddOperand == Open /\ vChain' = Append(vChain, 0) /\ UNCHANGED vGap
(* "+" and "*" after a type are its occurrence indicator.                      *)
Indicator(i) == vChain[Len(vChain)] # 0 /\ Ops[vChain[Len(vChain)]].v = 11 /\ Ops[i].t \in {"+", "*"}
AddInfix == Complete /\ NOps < LEN /\ \E i \in Infix : ~Indicator(i) /\ vChain' = Append(vChain, i) /\ UNCHANGED vGap
AddPost == Complete /\ NOps < LEN /\ \E i \in Post : vChain' = Append(vChain, i) /\ UNCHANGED vGap
Next == AddSign \/ AddOperand \/ AddInfix \/ AddPost
Spec == Init /\ [][Next]_vars

Sp == IF vGap = 1 THEN <<32>> ELSE <<10>> \o S("(: (: x :) :)") \o <<9>>
Before(c, k) == Len(SelectSeq(SubSeq(c, 1, k - 1), LAMBDA i : i = 0))
Operand(k) == S("child::") \o <<97 + k>>
(* plain text of c from position i to j; n operands precede                   *)
Plain(c) == Cat(Tup([k \in 1..Len(c) |-> Sp \o (IF c[k] = 0 THEN Operand(Before(c, k)) ELSE S(Ops[c[k]].t))]))

Paren(t) == <<40>> \o t \o <<41>>
(* "bad" if no expression; otherwise [ok, t]                                  *)
BadT == [ok |-> FALSE, t |-> <<>>]
RECURSIVE Full(_, _)
Full(c, n) ==       \* c: elements, n: operands before it
    IF c = <<0>> THEN [ok |-> TRUE, t |-> Operand(n)]
    ELSE IF c = <<>> \/ c[Len(c)] \in Infix \cup Pre THEN BadT
    ELSE LET ps == {k \in 1..Len(c) : c[k] # 0}
             least == CHOOSE v \in 1..18 : (\E k \in ps : Ops[c[k]].v = v) /\ \A k \in ps : Ops[c[k]].v >= v
             ls == {k \in ps : Ops[c[k]].v = least}
             last == CHOOSE k \in ls : \A m \in ls : m <= k
             first == CHOOSE k \in ls : \A m \in ls : m >= k
             cnt(k) == Len(SelectSeq(SubSeq(c, 1, k), LAMBDA i : i = 0))
         IN IF least = 16 THEN           \* signs stand before what they apply to
              (IF first # 1 THEN BadT
               ELSE LET r == Full(Tail(c), n) IN IF r.ok THEN [ok |-> TRUE, t |-> S(Ops[c[1]].t) \o <<32>> \o Paren(r.t)] ELSE BadT)
            ELSE IF least \in NonAssocLevels /\ Cardinality(ls) > 1 THEN BadT
            ELSE IF least = 1 THEN       \* the comma is not binary: one flat list
              LET ks == SetToSortSeq(ls, <)
                  part(j) == Full(SubSeq(c, IF j = 1 THEN 1 ELSE ks[j - 1] + 1, IF j = Len(ks) + 1 THEN Len(c) ELSE ks[j] - 1),
                                  n + (IF j = 1 THEN 0 ELSE cnt(ks[j - 1])))
                  rs == Tup([j \in 1..(Len(ks) + 1) |-> part(j)])
              IN IF \E j \in 1..Len(rs) : ~rs[j].ok THEN BadT
                 ELSE [ok |-> TRUE, t |-> FoldLeft(LAMBDA a, j : IF j = 1 THEN Paren(rs[1].t) ELSE a \o <<44>> \o Paren(rs[j].t), <<>>, [j \in 1..Len(rs) |-> j])]
            ELSE IF c[last] \in Post THEN
              (IF last # Len(c) THEN BadT
               ELSE LET l == Full(SubSeq(c, 1, last - 1), n) IN
                    IF l.ok THEN [ok |-> TRUE, t |-> Paren(l.t) \o <<32>> \o S(Ops[c[last]].t)] ELSE BadT)
            ELSE LET l == Full(SubSeq(c, 1, last - 1), n)
                     r == Full(SubSeq(c, last + 1, Len(c)), n + cnt(last))
                     w(x, t) == IF least = 18 THEN t ELSE Paren(t)      \* steps are not put in parentheses
                 IN IF l.ok /\ r.ok THEN [ok |-> TRUE, t |-> w(1, l.t) \o <<32>> \o S(Ops[c[last]].t) \o <<32>> \o w(2, r.t)] ELSE BadT

Grouping ==
    Complete => LET full == Full(vChain, 0)
                    e == ParseX(Plain(vChain)) IN
                IF full.ok THEN e.k # "ERR" /\ e = ParseX(full.t)
                ELSE e.k = "ERR"
Printed == Complete /\ EMIT /\ vGap = 1 => PrintT(<<"@@", "EXPR", 1, 0, ToJson(<<Plain(vChain), Full(vChain, 0).t>>)>>)
=============================================================================
