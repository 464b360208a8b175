------------------------------- MODULE MCSax -------------------------------
(* The tokeniser on every text up to a length over a small alphabet, and on *)
(* given texts.  Checked: every step moves on; the end is reached and stays *)
(* the end; nothing of the text is skipped; the tokens written out again    *)
(* give the same tokens; a document is accepted exactly when its tags       *)
(* cancel out; the tree's text denotes the tree.                            *)
EXTENDS Dom, TLC, Json, IOUtils
CONSTANTS N, EMIT

(* sessions: alphabet as code points, prefix, suffix                         *)
Starts == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, vText, vSax, vToks, vEnd
vars == <<sid, vText, vSax, vToks, vEnd>>

Init == /\ sid \in 1..Len(Starts)
        /\ \E n \in 0..N : \E w \in [1..n -> 1..Len(Starts[sid].alpha)] :
              vText = Starts[sid].pre \o Cat(Tup([i \in 1..n |-> Starts[sid].alpha[w[i]]])) \o Starts[sid].post
        /\ vSax = SaxInit(vText) /\ vToks = <<>> /\ vEnd = ""
        /\ EMIT => PrintT(<<"@@", "TXT", sid, 0, ToJson(vText)>>)
Read == /\ vEnd = ""
        /\ LET r == SaxStep(vSax) IN
           /\ vSax' = r.s
           /\ IF r.tok.k \in {"EOF", "ERR", "OOM"} THEN vEnd' = r.tok.k /\ vToks' = vToks
              ELSE vToks' = Append(vToks, r.tok) /\ vEnd' = ""
        /\ UNCHANGED <<sid, vText>>
Again == vEnd = "EOF" /\ SaxStep(vSax).tok.k = "EOF" /\ vSax' = SaxStep(vSax).s /\ UNCHANGED <<sid, vText, vToks, vEnd>>
Next == Read \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

Terminates == <>(vEnd # "")
Progress == [][vToks' # vToks => vSax'.i > vSax.i \/ vSax.pend # <<>>]_vars
EofStays == vEnd = "EOF" => SaxStep(vSax).tok.k = "EOF"

(* Text of a token.  Character data without "]]>" and CR is written as CDATA. *)
HasPat(t, p) == \E i \in 1..(Len(t) - Len(p) + 1) : SubSeq(t, i, i + Len(p) - 1) = p
CdB == S("<![CDATA[")
Written(k) ==
    CASE k.k = "S" -> <<60>> \o k.n \o Cat(MapSeq(k.a, LAMBDA a : <<32>> \o a.n \o <<61, 34>> \o Enc(a.v) \o <<34>>)) \o <<62>>
      [] k.k = "E" -> <<60, 47>> \o k.n \o <<62>>
      [] k.k = "T" -> IF HasPat(k.v, CDEnd) \/ \E i \in 1..Len(k.v) : k.v[i] = 13 THEN Enc(k.v) ELSE CdB \o k.v \o CDEnd
      [] k.k = "C" -> S("<!--") \o k.v \o CoEnd
      [] k.k = "P" -> <<60, 63>> \o k.n \o <<32>> \o k.v \o PIEnd
      [] k.k = "D" -> k.v
WrittenAgain == vEnd = "EOF" =>
    LET r == SaxAll(Cat(MapSeq(vToks, Written))) IN r.end = "eof" /\ r.toks = vToks

(* Tags cancel: an end tag takes away the start tag just before it.          *)
Tags == SelectSeq(vToks, LAMBDA k : k.k \in {"S", "E"})
RECURSIVE Reduce(_)
Reduce(ts) == LET at == {i \in 1..(Len(ts) - 1) : ts[i].k = "S" /\ ts[i + 1].k = "E" /\ ts[i].n = ts[i + 1].n} IN
              IF at = {} THEN ts
              ELSE LET i == CHOOSE i \in at : TRUE IN Reduce(SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 2, Len(ts)))
Accepted == vEnd \in {"EOF", "ERR"} => (NewDocument(vText).res = "ok" <=> vEnd = "EOF" /\ Reduce(Tags) = <<>>)
Parsed == NewDocument(vText)
TreeKept == vEnd = "EOF" /\ Parsed.res = "ok" =>
    LET f == Parsed.f  t == ToText(f, 1)  g == NewDocument(t) IN
    /\ WellFormed(f) /\ Acyclic(f)
    /\ g.res = "ok" /\ Shape(g.f, 1) = MergedShape(f, 1)
    /\ ToText(g.f, 1) = t \/ \E i \in 1..Len(f) : f[i].t = "text" /\ f[i].v = <<>>
    /\ ToText(NewDocument(ToText(g.f, 1)).f, 1) = ToText(g.f, 1)
    /\ Len(SelectSeq(f, LAMBDA n : n.t = "elem")) = Len(SelectSeq(vToks, LAMBDA k : k.k = "S"))
    /\ Order(f, 1) = [i \in 1..Len(f) |-> i]
TypeOK == vEnd \in {"", "EOF", "ERR", "OOM"} /\ vSax.i \in Nat
=============================================================================
