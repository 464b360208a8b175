------------------------------- MODULE MCLaws ------------------------------
(* Laws of the expression language.  A law says that two expressions have    *)
(* the same value (or are both errors) for all values of its parameters,     *)
(* written %A ... and replaced by texts of the domain of that letter:        *)
(*   A B C sequences   N M integers   X Y numbers   S T U strings            *)
(*   P Q R node sets   V W single atomic values   D E conditions   I kinds   *)
(*   K keys   F one-argument functions                                       *)
(* Every instance is a state; both sides are evaluated by the specification, *)
(* printed, and asked of the real code.                                      *)
EXTENDS XEval, TLC, Json, IOUtils

(* sessions: nodes of a document, context node, property, how many instances *)
(* of each law, where to start                                               *)
Starts == ndJsonDeserialize(IOEnv.TRACE)
L(p, l, r) == [p |-> p, l |-> l, r |-> r]
Laws == <<
  \* -- paths, axes, order
  L("P06", "%P/.", "%P | ()"),
  L("P06", "(%P, %Q)/.", "%P | %Q"),
  L("P06", "reverse(%P)/.", "%P/."),
  L("P06", "(%P | %Q)/..", "(%P/.., %Q/..)/."),
  L("P06", "every $x in %P satisfies $x/.. << $x or empty($x/..)", "true()"),
  L("P06", "%P//*", "%P/descendant-or-self::node()/child::*"),
  L("P06", "(%P//node())[1]", "(%P/descendant::node())[1]"),
  L("P06", "count(%P/.) = count(%P | ())", "true()"),
  L("P06", "(for $x in %P return $x)/.", "%P/."),
  L("P06", "count(%P//node()) = count((%P//node(), %P//node())/.)", "true()"),
  L("P06", "(%P/descendant::node())[last()]", "reverse(%P//node())[1]"),
  L("P06", "for $x in %P, $y in %P/@* return ($x << $y) or ($y/.. << $x) or ($x >> $y)", "for $x in %P, $y in %P/@* return not($x is $y) or ($y/.. << $x)"),
  L("P07", "%P/ancestor-or-self::node()", "%P/ancestor::node() | %P/."),
  L("P07", "%P/descendant-or-self::node()", "%P/descendant::node() | %P/."),
  L("P07", "%P/..", "%P/parent::node()"),
  L("P07", "%P/@*", "%P/attribute::node()"),
  L("P07", "%P/descendant::node()", "%P/child::node() | %P/child::node()/descendant::node()"),
  L("P07", "%P/ancestor::node()", "%P/parent::node() | %P/parent::node()/ancestor::node()"),
  L("P07", "%P[not(self::attribute())]/following::node()", "%P[not(self::attribute())]/ancestor-or-self::node()/following-sibling::node()/descendant-or-self::node()"),
  L("P07", "%P[not(self::attribute())]/preceding::node()", "%P[not(self::attribute())]/ancestor-or-self::node()/preceding-sibling::node()/descendant-or-self::node()"),
  L("P07", "%P[. intersect %Q/child::node()]", "%P[exists(parent::node() intersect %Q)][not(self::attribute())]"),
  L("P07", "%P[. intersect %Q/descendant::node()]", "%P[exists(ancestor::node() intersect %Q)][not(self::attribute())]"),
  L("P07", "root(%P[1])", "%P[1]/ancestor-or-self::node()[last()]"),
  L("P07", "for $x in %P[not(self::attribute())] return count($x/preceding::node()) + count($x/following::node()) + count($x/ancestor-or-self::node()) + count($x/descendant::node())", "for $x in %P[not(self::attribute())] return count((/ | //node()))"),
  L("P07", "%P[not(self::attribute())]/following-sibling::node()", "(for $x in %P[not(self::attribute())] return $x/../node()[. >> $x])/."),
  L("P07", "%P[not(self::attribute())]/preceding-sibling::node()", "(for $x in %P[not(self::attribute())] return $x/../node()[. << $x])/."),
  L("P07", "%P/@*/following-sibling::node()", "()"),
  L("P07", "%P/@*/preceding-sibling::node()", "()"),
  L("P07", "%P/@*/descendant-or-self::node()", "%P/@*"),
  L("P07", "%P/@*/ancestor::node()", "%P[@*]/ancestor-or-self::node()"),
  L("P07", "%P/@*/node()", "()"),
  L("P07", "%P[not(self::attribute())][. intersect %Q/following::node()]", "%P[not(self::attribute())][exists(preceding::node() intersect %Q) or exists(%Q[self::attribute()]/following::node() intersect .)]"),
  L("P07", "(%P/following::node()) intersect (%P/preceding::node()) intersect %P/.. ", "%P/.. intersect (%P/following::node()) intersect (%P/preceding::node())"),
  \* -- predicates
  L("P08", "%P[%N]", "%P[position() = %N]"),
  L("P08", "(%A)[%N]", "subsequence((%A), %N, 1)"),
  L("P08", "(%A)[position() >= %N]", "subsequence((%A), %N)"),
  L("P08", "(%A)[last()]", "reverse((%A))[1]"),
  L("P08", "(%A)[last() - %N]", "reverse((%A))[%N + 1]"),
  L("P08", "%P/ancestor::node()[%N]", "(for $x in %P return reverse($x/ancestor::node())[%N])/."),
  L("P08", "(for $x in %P return $x/preceding-sibling::node()[%N])/.", "(for $x in %P return reverse($x/(preceding-sibling::node()))[%N])/."),
  L("P08", "(for $x in %P return $x/preceding::*[%D][%N])/.", "(for $x in %P return reverse($x/(preceding::*[%D]))[%N])/."),
  L("P08", "(%P)[%D][%N]", "((%P)[%D])[%N]"),
  L("P08", "(%A) ! position()", "for $i in 1 to count((%A)) return $i"),
  L("P08", "(%A) ! last()", "for $i in (%A) return count((%A))"),
  L("P08", "(%A)[true()]", "(%A)"),
  L("P08", "(%A)[position() = (%N, %M)]", "(if (%N < %M) then ((%A)[%N], (%A)[%M]) else if (%N = %M) then (%A)[%N] else ((%A)[%M], (%A)[%N]))"),
  L("P08", "(%A)[position() != last()]", "reverse(tail(reverse((%A))))"),
  L("P08", "%P/following::node()[%N]", "(for $x in %P return ($x/following::node())[%N])/."),
  L("P08", "%P/ancestor-or-self::*[last()]", "(for $x in %P return ($x/ancestor-or-self::*)[1])/."),
  L("P08", "%P/*[%N][%D]", "(for $x in %P return ($x/*)[%N][%D])/."),
  L("P08", "(%A)[%N][1]", "(%A)[%N]"),
  L("P08", "(%A)[%N][2]", "()"),
  L("P08", "%P ! (position() * 10 + last())", "for $i in 1 to count(%P) return $i * 10 + count(%P)"),
  L("P08", "(%A)[position() < %N][position() < %M]", "(%A)[position() < %N and position() < %M]"),
  L("P08", "(%A)[position() > %N][position() > 1]", "(%A)[position() > (if (%N < 0) then 1 else %N + 1)]"),
  \* -- node tests
  L("P09", "%P/*", "%P/child::element()"),
  L("P09", "%P/node()", "%P/(* | text() | comment() | processing-instruction())"),
  L("P09", "%P/@*", "%P/@attribute()"),
  L("P09", "%P/child::%I", "%P/node()[self::%I]"),
  L("P09", "%P/descendant-or-self::%I", "%P/descendant-or-self::node()[. instance of %I]"),
  L("P09", "%P/*[name() = \"a\"]", "%P/a"),
  L("P09", "%P/*[local-name() = \"a\"]", "%P/*:a"),
  L("P09", "%P/@*[local-name() = \"n\"]", "%P/@*:n"),
  L("P09", "%P[self::%I]", "%P[. instance of %I]"),
  L("P09", "%P/text()", "%P/node()[self::text()]"),
  L("P09", "%P/descendant::%I", "%P/descendant::node() intersect //%I"),
  L("P09", "%P/self::*", "(%P | ())[. instance of element()]"),
  L("P09", "count(%P/@node())", "count(%P/@*)"),
  L("P09", "%P/ancestor::%I", "%P/ancestor::node()[. instance of %I]"),
  L("P09", "%P/preceding::%I", "%P/preceding::node()[self::%I]"),
  \* -- node sets
  L("P10", "%P | %Q", "%Q | %P"),
  L("P10", "%P intersect %Q", "%Q intersect %P"),
  L("P10", "(%P | %Q) | %R", "%P | (%Q | %R)"),
  L("P10", "(%P intersect %Q) intersect %R", "%P intersect (%Q intersect %R)"),
  L("P10", "%P intersect (%Q | %R)", "(%P intersect %Q) | (%P intersect %R)"),
  L("P10", "%P | (%Q intersect %R)", "(%P | %Q) intersect (%P | %R)"),
  L("P10", "%P except (%Q | %R)", "(%P except %Q) intersect (%P except %R)"),
  L("P10", "%P except (%P except %Q)", "%P intersect %Q"),
  L("P10", "(%P except %Q) | (%P intersect %Q)", "%P | ()"),
  L("P10", "(%P except %Q) intersect %Q", "()"),
  L("P10", "%P union %P", "%P/."),
  L("P10", "count(%P | %Q)", "count(%P | ()) + count(%Q | ()) - count(%P intersect %Q)"),
  L("P10", "for $x in %P, $y in %Q return ($x is $y)", "for $x in %P, $y in %Q return exists($x intersect $y)"),
  L("P10", "for $x in %P, $y in %Q return ($x << $y)", "for $x in %P, $y in %Q return ($y >> $x)"),
  L("P10", "for $x in %P, $y in %Q return ($x << $y)", "for $x in %P, $y in %Q return not($x is $y) and (($x | $y)[1] is $x)"),
  L("P10", "every $x in %P, $y in %Q satisfies (if ($x is $y) then not($x << $y or $x >> $y) else ($x << $y) != ($x >> $y))", "true()"),
  \* -- comparisons
  L("P12", "(%A) = (%B)", "some $x in (%A), $y in (%B) satisfies $x = $y"),
  L("P12", "(%A) < (%B)", "some $x in (%A), $y in (%B) satisfies $x < $y"),
  L("P12", "(%V, %W) != (%W, %V)", "%V != %W or %V != %V or %W != %W"),
  L("P12", "(%A) = (%B)", "(%B) = (%A)"),
  L("P12", "(%A) != (%B)", "(%B) != (%A)"),
  L("P12", "(%A) <= (%B)", "(%B) >= (%A)"),
  L("P12", "(%A) > (%B)", "(%B) < (%A)"),
  L("P12", "%V eq %W", "%W eq %V"),
  L("P12", "%V lt %W", "%W gt %V"),
  L("P12", "%V le %W", "%W ge %V"),
  L("P12", "%V ne %W", "not(%V eq %W)"),
  L("P12", "%V le %W", "%V lt %W or %V eq %W"),
  L("P12", "%X eq %Y", "%X = %Y"),
  L("P12", "%S lt %T", "compare(%S, %T) = -1"),
  L("P12", "%S eq %T", "codepoint-equal(%S, %T)"),
  L("P12", "() eq %V", "()"),
  L("P12", "%V lt ()", "()"),
  L("P12", "(%A) = ()", "false()"),
  \* -- arithmetic
  L("P13", "%N + %M", "%M + %N"),
  L("P13", "%N * %M", "%M * %N"),
  L("P13", "%X + %Y", "%Y + %X"),
  L("P13", "%X * %Y", "%Y * %X"),
  L("P13", "%X - %Y", "%X + - %Y"),
  L("P13", "- (- %X)", "+ %X"),
  L("P13", "(%N idiv %M) * %M + %N mod %M", "if (%M = 0) then 1 idiv 0 else %N"),
  L("P13", "(%N div %M) instance of xs:decimal", "if (%M = 0) then 1 idiv 0 else true()"),
  L("P13", "%N idiv %M", "if (%M = 0) then 1 idiv 0 else if (%N mod %M = 0) then (%N div %M) cast as xs:integer else (%N - %N mod %M) idiv %M"),
  L("P13", "(%N - %M) + %M", "%N"),
  L("P13", "abs(%N mod %M) < abs(%M)", "if (%M = 0) then 1 idiv 0 else true()"),
  L("P13", "%V + ()", "()"), L("P13", "() * %X", "()"), L("P13", "- (%A)[0]", "()"),
  L("P13", "%X + 0", "%X"),
  L("P13", "- %X", "0 - %X"),
  L("P13", "(%X - %X) = 0", "%X = %X and abs(%X) < 1e15"),
  L("P13", "%X * 1", "%X"),
  L("P13", "%X div 1 = %X", "%X = %X"),
  L("P13", "%N - %M", "- (%M - %N)"),
  L("P13", "(%N * %M) idiv %M", "if (%M = 0) then 1 idiv 0 else %N"),
  L("P13", "%N * (%M + 3)", "%N * %M + %N * 3"),
  L("P13", "(%N + %M) instance of xs:integer and (%N * %M) instance of xs:integer", "true()"),
  L("P13", "(%X + 1e0) instance of xs:double", "true()"),
  L("P13", "%X mod %M", "if (%M = 0) then %X mod 0 else - ((- %X) mod %M)"),
  \* -- booleans
  L("P14", "not(%D and %E)", "not(%D) or not(%E)"),
  L("P14", "not(%D or %E)", "not(%D) and not(%E)"),
  L("P14", "%D and %E", "if (%D) then boolean(%E) else false()"),
  L("P14", "%D or %E", "if (%D) then true() else boolean(%E)"),
  L("P14", "not(not(%D))", "boolean(%D)"),
  L("P14", "boolean(%D)", "if (%D) then true() else false()"),
  L("P14", "every $x in (%A) satisfies %D", "not(some $x in (%A) satisfies not(%D))"),
  L("P14", "some $x in %P satisfies $x/*", "boolean(%P[*])"),
  L("P14", "every $x in %P satisfies $x/@*", "not(%P[not(@*)])"),
  L("P14", "%P[boolean(%D)]", "for $x in %P return (if ($x/boolean(%D)) then $x else ())"),
  L("P14", "filter((%A), function($x) { boolean(%D) })", "if (empty((%A))) then () else if (%D) then (%A) else ()"),
  L("P14", "boolean(%X)", "not(%X = 0 or %X != %X)"),
  L("P14", "boolean(%S)", "%S != \"\""),
  L("P14", "boolean(%P)", "exists(%P)"),
  L("P14", "false() and (%V eq 1)", "false()"),
  L("P14", "true() or (%V + \"a\")", "true()"),
  \* -- variables
  L("P15", "for $x in (%A), $y in (%B) return $x", "for $x in (%A) return for $y in (%B) return $x"),
  L("P15", "for $x in (%A) return ($x, (%B))", "for $y in (%A) return ($y, (%B))"),
  L("P15", "let $x := (%A) return ($x, $x)", "((%A), (%A))"),
  L("P15", "let $x := (%A) return let $x := (%B) return $x", "(%B)"),
  L("P15", "let $x := (%A) return ((let $x := (%B) return $x), $x)", "((%B), (%A))"),
  L("P15", "let $x := (%A) return (for $x in (%B) return $x, $x)", "((%B), (%A))"),
  L("P15", "let $x := (%A), $y := ($x, $x) return count($y)", "2 * count((%A))"),
  L("P15", "let $x := %V return ((some $x in (%A) satisfies $x = $x), $x)", "((some $z in (%A) satisfies $z = $z), %V)"),
  L("P15", "let $x := %V return (function($x) { ($x, $x) }((%A)), $x)", "((%A), (%A), %V)"),
  L("P15", "let $x := (%A), $f := function() { $x }, $x := (%B) return ($f(), $x)", "((%A), (%B))"),
  L("P15", "for $x in (%A), $x in ($x, (%B)) return $x", "for $x in (%A) return ($x, (%B))"),
  L("P15", "(for $x in (%A) return $x), (for $x in (%B) return $x)", "(%A), (%B)"),
  L("P15", "some $x in (%A), $y in (%B) satisfies $x = $y", "some $x in (%A) satisfies some $y in (%B) satisfies $x = $y"),
  L("P15", "every $x in (%A), $y in (%B) satisfies $x = $y", "every $x in (%A) satisfies every $y in (%B) satisfies $x = $y"),
  \* -- sequences
  L("P16", "((%A), ((%B), (%C)))", "(((%A), (%B)), (%C))"),
  L("P16", "count(((%A), (%B)))", "count((%A)) + count((%B))"),
  L("P16", "reverse(((%A), (%B)))", "(reverse((%B)), reverse((%A)))"),
  L("P16", "reverse(reverse((%A)))", "(%A)"),
  L("P16", "(head((%A)), tail((%A)))", "(%A)"),
  L("P16", "head((%A))", "(%A)[1]"),
  L("P16", "tail((%A))", "subsequence((%A), 2)"),
  L("P16", "insert-before((%A), %N, (%B))", "((%A)[position() < %N], (%B), (%A)[position() >= %N])"),
  L("P16", "remove((%A), %N)", "(%A)[position() != %N]"),
  L("P16", "subsequence((%A), %X)", "(%A)[position() >= round(%X)]"),
  L("P16", "subsequence((%A), %X, %Y)", "(%A)[position() >= round(%X) and position() < round(%X) + round(%Y)]"),
  L("P16", "empty((%A))", "count((%A)) = 0"),
  L("P16", "exists((%A))", "not(empty((%A)))"),
  L("P16", "zero-or-one((%A))", "if (count((%A)) > 1) then 1 idiv 0 else (%A)"),
  L("P16", "one-or-more((%A))", "if (empty((%A))) then 1 idiv 0 else (%A)"),
  L("P16", "exactly-one((%A))", "if (count((%A)) != 1) then 1 idiv 0 else (%A)"),
  L("P16", "count(%N to %M)", "if (%N > %M) then 0 else %M - %N + 1"),
  L("P16", "reverse(%N to %M)", "for $i in 0 to %M - %N return %M - $i"),
  L("P16", "remove(insert-before((%A), 1, %V), 1)", "(%A)"),
  L("P16", "(%A) ! .", "(%A)"),
  L("P16", "for $i in 1 to count((%A)) return (%A)[$i]", "(%A)"),
  L("P16", "index-of(((%A), %V), %V)[last()]", "if (%V = %V) then count(data((%A))) + 1 else ()"),
  L("P16", "index-of((%A), %V) ! (%N - %N)", "index-of((%A), %V) ! 0"),
  L("P16", "count(remove((%A), %N))", "count((%A)) - (if (%N >= 1 and %N <= count((%A))) then 1 else 0)"),
  L("P16", "count(insert-before((%A), %N, (%B)))", "count((%A)) + count((%B))"),
  L("P16", "subsequence((%A), 1, %N), subsequence((%A), %N + 1)", "(%A)"),
  L("P16", "(%N to %M)[1]", "if (%N > %M) then () else %N"),
  L("P16", "%N to %N", "%N"),
  L("P16", "for $i in %N to %M return $i", "%N to %M"),
  \* -- strings
  L("P17", "concat(%S, concat(%T, %U))", "concat(concat(%S, %T), %U)"),
  L("P17", "%S || %T", "concat(%S, %T)"),
  L("P17", "string-join((%S, %T), %U)", "concat(%S, %U, %T)"),
  L("P17", "string-join(((%S, %T), (%U)), \"\")", "%S || %T || %U"),
  L("P17", "string-length(%S || %T)", "string-length(%S) + string-length(%T)"),
  L("P17", "string-length(%S)", "count(string-to-codepoints(%S))"),
  L("P17", "codepoints-to-string(string-to-codepoints(%S))", "%S"),
  L("P17", "contains(%S, %T)", "exists(for $i in 1 to string-length(%S) + 1 return $i[substring(%S, $i, string-length(%T)) = %T])"),
  L("P17", "starts-with(%S, %T)", "substring(%S, 1, string-length(%T)) = %T"),
  L("P17", "ends-with(%S || %T, %T)", "true()"),
  L("P17", "ends-with(%S, %T)", "string-length(%S) >= string-length(%T) and substring(%S, string-length(%S) - string-length(%T) + 1) = %T"),
  L("P17", "if (contains(%S, %T)) then substring-before(%S, %T) || %T || substring-after(%S, %T) else %S", "%S"),
  L("P17", "if (contains(%S, %T)) then \"\" else substring-before(%S, %T) || substring-after(%S, %T)", "\"\""),
  L("P17", "substring(%S, 1, %N) || substring(%S, %N + 1)", "%S"),
  L("P17", "substring(%S, %X)", "codepoints-to-string(subsequence(string-to-codepoints(%S), %X))"),
  L("P17", "substring(%S, %X, %Y)", "codepoints-to-string(subsequence(string-to-codepoints(%S), %X, %Y))"),
  L("P17", "translate(%S, %T, %T)", "%S"),
  L("P17", "translate(%S, %T, \"\")", "string-join((for $i in 1 to string-length(%S) return substring(%S, $i, 1)[not(contains(%T, .))]), \"\")"),
  L("P17", "compare(%S, %T)", "- compare(%T, %S)"),
  L("P17", "compare(%S, %S)", "0"),
  L("P17", "compare(%S || %T, %S || %U)", "compare(%T, %U)"),
  L("P17", "upper-case(upper-case(%S))", "upper-case(%S)"),
  L("P17", "lower-case(%S || %T)", "lower-case(%S) || lower-case(%T)"),
  L("P17", "upper-case(%S || %T)", "upper-case(%S) || upper-case(%T)"),
  L("P17", "substring-before(%S || %T || %U, %S)", "\"\""),
  L("P17", "string-join(for $i in 1 to string-length(%S) return substring(%S, $i, 1), \"\")", "%S"),
  L("P17", "contains(%S || %T || %U, %T)", "true()"),
  L("P17", "starts-with(%S || %T, %S)", "true()"),
  L("P17", "string-length(translate(%S, %T, %U)) <= string-length(%S)", "true()"),
  L("P17", "translate(translate(%S, \"ab\", \"ba\"), \"ab\", \"ba\")", "%S"),
  L("P17", "reverse(string-to-codepoints(%S)) ! codepoints-to-string(.)", "for $i in 1 to string-length(%S) return substring(%S, string-length(%S) + 1 - $i, 1)"),
  L("P17", "codepoint-equal(%S, %T)", "compare(%S, %T) = 0"),
  L("P17", "string-join((%S, %T, %U), \"-\")", "string-join((string-join((%S, %T), \"-\"), %U), \"-\")"),
  \* -- maps and arrays
  L("P18", "map{%K: (%A)}?(%K)", "(%A)"),
  L("P18", "map{%K: (%A)}(%K)", "map:get(map{%K: (%A)}, %K)"),
  L("P18", "map:contains(map{%K: (%A)}, %V)", "exists(map{%K: 1}(%V))"),
  L("P18", "map:size(map{%K: (%A), \"zz\": (%B)})", "2"),
  L("P18", "map{%K: (%A), \"zz\": (%B)}?*", "((%A), (%B))"),
  L("P18", "map:keys(map{%K: (%A), \"zz\": (%B)})", "(%K, \"zz\")"),
  L("P18", "for $k in map:keys(map{%K: (%A)}) return map{%K: (%A)}($k)", "(%A)"),
  L("P18", "array:size([(%A), (%B)])", "2"),
  L("P18", "[(%A), (%B)]?1", "(%A)"),
  L("P18", "[(%A), (%B)](2)", "(%B)"),
  L("P18", "[(%A), (%B)]?*", "((%A), (%B))"),
  L("P18", "array{(%A)}?*", "(%A)"),
  L("P18", "array:size(array{(%A)})", "count((%A))"),
  L("P18", "array{(%A)}(%N)", "if (%N < 1 or %N > count((%A))) then 1 idiv 0 else (%A)[%N]"),
  L("P18", "array:get(array{(%A)}, %N)", "array{(%A)}?(%N)"),
  L("P18", "array:flatten([(%A), [(%B), [(%C)]]])", "((%A), (%B), (%C))"),
  L("P18", "[(%A)]?(%N)", "[(%A)](%N)"),
  L("P18", "[[(%A)], map{%K: (%B)}]?2?(%K)", "(%B)"),
  L("P18", "map{%K: 1}(%V)", "if (exists(map{%V: 1}(%K))) then 1 else ()"),
  L("P18", "map:get(map{%K: (%A)}, %V)", "if (map:contains(map{%K: (%A)}, %V)) then (%A) else ()"),
  L("P18", "map:size(map{%K: (%A)})", "count(map:keys(map{%K: (%A)}))"),
  L("P18", "for $i in 1 to array:size(array{(%A)}) return array{(%A)}($i)", "(%A)"),
  L("P18", "array:size(array{(%A), (%B)})", "array:size(array{(%A)}) + array:size(array{(%B)})"),
  L("P18", "[(%A), (%B), (%C)]?(2 to 3)", "((%B), (%C))"),
  L("P18", "map{%K: map{%K: (%A)}}?(%K)?(%K)", "(%A)"),
  L("P18", "array:flatten(array{(%A)})", "(%A)"),
  L("P18", "[(%A)]?1", "array:get([(%A)], 1)"),
  \* -- types
  L("P19", "(%A) instance of item()*", "true()"),
  L("P19", "(%A) instance of item()+", "exists((%A))"),
  L("P19", "(%A) instance of item()?", "count((%A)) <= 1"),
  L("P19", "(%A) instance of item()", "count((%A)) = 1"),
  L("P19", "(%A) instance of empty-sequence()", "empty((%A))"),
  L("P19", "(%A) instance of xs:anyAtomicType*", "every $x in (%A) satisfies $x instance of xs:anyAtomicType"),
  L("P19", "(%A) instance of node()+", "exists((%A)) and (every $x in (%A) satisfies $x instance of node())"),
  L("P19", "(%A) instance of xs:decimal*", "every $x in (%A) satisfies ($x instance of xs:decimal)"),
  L("P19", "%V instance of xs:integer and not(%V instance of xs:decimal)", "false()"),
  L("P19", "if (%V castable as xs:integer) then (%V cast as xs:integer) instance of xs:integer else true()", "true()"),
  L("P19", "if (%V castable as xs:double) then (%V cast as xs:double) instance of xs:double else true()", "true()"),
  L("P19", "if (%V castable as xs:boolean) then (%V cast as xs:boolean) instance of xs:boolean else true()", "true()"),
  L("P19", "(%V cast as xs:string) instance of xs:string", "true()"),
  L("P19", "(%N cast as xs:string) cast as xs:integer", "%N"),
  L("P19", "(%X cast as xs:double) cast as xs:double", "%X cast as xs:double"),
  L("P19", "%V cast as xs:string", "string(%V)"),
  L("P19", "() cast as xs:integer?", "()"),
  L("P19", "%X cast as xs:integer", "%X idiv 1"),
  L("P19", "%X cast as xs:boolean", "boolean(%X)"),
  L("P19", "(%A) instance of xs:string*", "every $x in (%A) satisfies $x instance of xs:string"),
  L("P19", "(%A) instance of element()*", "every $x in (%A) satisfies $x instance of element()"),
  L("P19", "[(%A)] instance of array(xs:integer*)", "(%A) instance of xs:integer*"),
  L("P19", "[(%A), (%B)] instance of array(node()*)", "(%A) instance of node()* and (%B) instance of node()*"),
  L("P19", "map{%K: (%A)} instance of map(xs:anyAtomicType, item()+)", "exists((%A))"),
  L("P19", "map{%K: 1} instance of map(xs:integer, item()*)", "%K instance of xs:integer"),
  L("P19", "map{%K: 1, %V: 2} instance of map(xs:string, xs:integer)", "if (map:size(map{%K: 1, %V: 2}) = 2) then %K instance of xs:string and %V instance of xs:string else %K instance of xs:string"),
  L("P19", "%V castable as xs:integer?", "%V castable as xs:integer"),
  L("P19", "() castable as xs:integer?", "true()"),
  L("P19", "() castable as xs:integer", "false()"),
  L("P19", "(%N cast as xs:double) cast as xs:integer", "%N"),
  L("P19", "(%N cast as xs:decimal) cast as xs:integer", "%N"),
  L("P19", "%V instance of xs:anyAtomicType", "true()"),
  L("P19", "%V instance of xs:numeric", "%V instance of xs:decimal or %V instance of xs:double"),
  \* -- aggregates
  L("P22", "sum((%N, %M))", "%N + %M"),
  L("P22", "sum((%X, %Y, %N))", "%X + %Y + %N"),
  L("P22", "avg((%X, %Y))", "(%X + %Y) div 2"),
  L("P22", "max((%N, %M))", "if (%N > %M) then %N else %M"),
  L("P22", "min((%N, %M))", "if (%N < %M) then %N else %M"),
  L("P22", "max((%S, %T))", "if (%S > %T) then %S else %T"),
  L("P22", "min((%S, %T, %U))", "if (%S < %T) then min((%S, %U)) else min((%T, %U))"),
  L("P22", "count((%A)) = count(reverse((%A)))", "true()"),
  L("P22", "sum((%A, %B)) = sum((%B, %A))", "sum((%A, %B)) = sum((%A, %B))"),
  L("P22", "max((%N, %M, %N))", "- min((- %N, - %M))"),
  L("P22", "floor(%X)", "- ceiling(- %X)"),
  L("P22", "floor(%X) <= %X and %X < floor(%X) + 1", "abs(%X) < 1e15"),
  L("P22", "ceiling(%N)", "%N"),
  L("P22", "round(%N)", "%N"),
  L("P22", "abs(%N)", "if (%N < 0) then - %N else %N"),
  L("P22", "abs(- %X)", "abs(%X)"),
  L("P22", "round(%X) = floor(%X + 0.5)", "%X = %X"),
  L("P22", "number(string(%N)) = %N", "true()"),
  L("P22", "number(%X) instance of xs:double", "true()"),
  L("P22", "sum((), %V)", "%V"),
  L("P22", "avg(())", "()"),
  L("P22", "max(())", "()"),
  L("P22", "sum((%A)[. instance of xs:integer]) = (if (empty((%A)[. instance of xs:integer])) then 0 else avg((%A)[. instance of xs:integer]) * count((%A)[. instance of xs:integer]))", "true()"),
  L("P22", "max((%N, %M)) + min((%N, %M))", "%N + %M"),
  L("P22", "ceiling(%X) - floor(%X) <= 1", "%X = %X and abs(%X) < 1e15"),
  L("P22", "number(string(%X)) = %X", "%X = %X"),
  L("P22", "string(%N)", "string(number(%N))"),
  L("P22", "sum(%N to %M)", "if (%N > %M) then 0 else (%N + %M) * (%M - %N + 1) idiv 2"),
  L("P22", "count(((%A), (%B)))", "sum((count((%A)), count((%B))))"),
  L("P22", "abs(%X) >= 0", "%X = %X"),
  L("P22", "round(%X) - %X <= 0.5", "%X = %X and abs(%X) < 1e15"),
  L("P22", "%S cast as xs:string", "string(%S)"),
  \* -- functions
  L("P23", "for-each((%A), %F)", "(%A) ! (%F)(.)"),
  L("P23", "for-each(((%A), (%B)), %F)", "(for-each((%A), %F), for-each((%B), %F))"),
  L("P23", "(%F)((%A))", "let $f := %F return $f((%A))"),
  L("P23", "filter((%A), function($x) { $x instance of node() })", "(%A)[. instance of node()]"),
  L("P23", "%S => concat(%T)", "concat(%S, %T)"),
  L("P23", "concat(?, %T)(%S)", "concat(%S, %T)"),
  L("P23", "concat(%S, ?)(%T)", "concat(%S, %T)"),
  L("P23", "substring(?, %N, ?)(%S, %M)", "substring(%S, %N, %M)"),
  L("P23", "substring(%S, ?, ?)(%N, %M)", "substring(%S, %N, %M)"),
  L("P23", "insert-before(?, %N, (%B))((%A))", "insert-before((%A), %N, (%B))"),
  L("P23", "insert-before((%A), ?, ?)(%N, (%B))", "insert-before#3((%A), %N, (%B))"),
  L("P23", "(%A) => insert-before(%N, (%B))", "insert-before((%A), %N, (%B))"),
  L("P23", "function($x, $y) { ($y, $x) }((%A), (%B))", "((%B), (%A))"),
  L("P23", "let $f := function($x) { function($y) { ($x, $y) } } return $f((%A))((%B))", "((%A), (%B))"),
  L("P23", "(%A) => reverse() => head()", "head(reverse((%A)))"),
  L("P23", "subsequence((%A), ?)(%N)", "subsequence(?, %N)((%A))"),
  L("P23", "for-each((%A), function($x) { count($x) })", "(%A) ! count(.)"),
  \* -- spelling
  L("P24", "%N+%M", "(::)%N (: a (: b :) :) +  %M"),
  L("P24", "(%A)[%N]", "( %A ) (: [ :) [ %N ]"),
  L("P24", "(%P)/%I", "(%P) / (: / :) %I"),
  L("P24", "%N eq %M", " %N (:eq:)eq(:eq:)%M "),
  L("P24", "if(%D)then %N else %M", " if (::) ( %D ) then(: then :) %N else(: else :) %M "),
  L("P24", "for $q in(%A)return $q", "for(::)$q (: in :) in  (%A) return  $q"),
  L("P24", "%S||%T", "%S (: || :) || (: \"( :) %T"),
  L("P24", "count(%P)", "count ( (: :) %P )"),
  L("P24", "(%N)to(%M)", "(%N) to (%M)"),
  L("P24", "%N - %M", "%N -%M"),
  L("P24", "(%N)-(%M)", "(%N) - (: - :) (%M)"),
  \* -- names
  L("P25", "%P ! name()", "for $x in %P return name($x)"),
  L("P25", "%P/name()", "for $x in %P return name($x)"),
  L("P25", "%P[self::*] ! string()", "%P[self::*] ! string-join(descendant::text(), \"\")"),
  L("P25", "%P ! local-name()", "%P ! (if (contains(name(), \":\")) then substring-after(name(), \":\") else name())"),
  L("P25", "%P[self::*][not(contains(name(), \":\"))] ! namespace-uri()", "%P[self::*][not(contains(name(), \":\"))] ! string((ancestor-or-self::*/@*[name() = \"xmlns\"])[last()])"),
  L("P25", "%P ! string(.)", "%P ! string(data(.))"),
  L("P25", "%P ! number()", "%P ! number(string())"),
  L("P25", "%P ! string-length(string())", "%P ! string-length()"),
  L("P25", "%P ! data(.)", "data(%P)"),
  L("P25", "%P[self::text()] ! string()", "for $t in %P[self::text()] return string($t)"),
  L("P25", "string((/))", "string-join(//text(), \"\")"),
  L("P25", "%P ! root(.)", "%P ! (/)"),
  L("P25", "%P[self::attribute()] ! namespace-uri()", "%P[self::attribute()] ! (if (contains(name(), \":\")) then namespace-uri() else \"\")"),
  L("P25", "name(%P[1])", "string(%P[1]/name())")
>>

SeqD == <<"()", "1", "1, 2, 3", "\"a\", \"b\"", "//a", "//@n, 2.5", "1, \"x\", true()", "//b, //a", "2e0, 2, 2.0", "\"1\", 1", "3, 1, 3", "//text()", "number(\"NaN\"), 0", "(5, 6)[2], .", "false(), true()">>
IntD == <<"0", "1", "2", "3", "-1", "5", "-7", "4">>
NumD == <<"1", "0", "2.5", "-1.5", "1e0", "-0.5e0", "0.1", "number(\"NaN\")", "(1 div 0e0)", "3", "-2", "2.5e0", "(-1 div 0e0)", "100.75", "1e-3">>
StrD == <<"\"\"", "\"a\"", "\"ab\"", "\"aba\"", "codepoints-to-string((27573, 97))", "codepoints-to-string((119070, 97, 65518))", "\"b\"", "\"a b\"", "\"B\"", "codepoints-to-string(65518)", "\"bb\"">>
NodeD == <<"(//a)", "(//*)", "(//@*)", "(//node())", "()", "(/)", "(.)", "(//text())", "(//b, //a)", "(//a[1])", "(//comment() | //b)", "(/*/*)", "(//node() | //@*)", "(//zz)", "(//a/@n | //a)", "((//*)[last()])", "(reverse(//*))", "(//node()[2])">>
AtomD == <<"1", "2.0", "1e0", "\"a\"", "\"1\"", "true()", "number(\"NaN\")", "0", "\"\"", "1.5", "false()", "-3">>
CondD == <<"true()", "()", "1", "0", "\"\"", "//a", "\"x\"", "count(//a) = 2", "number(\"NaN\")", "1 = (1, 2)", "//zz", "false()", "0.0", "(/, 1)", "not(1)">>
KindD == <<"node()", "text()", "comment()", "element()", "attribute()", "element(a)", "processing-instruction()", "processing-instruction(i)", "attribute(n)", "element(b)", "element(*)">>
KeyD == <<"1", "\"a\"", "1.5", "true()", "\"zy\"", "1e0", "\"\"">>
FunD == <<"function($z) { ($z, 1) }", "count#1", "string#1", "function($z) { () }", "function($z) { $z }", "concat(?, \"-\")", "function($z) { $z = 1 }">>
Dom(c) == CASE c \in {"A", "B", "C"} -> SeqD [] c \in {"N", "M"} -> IntD [] c \in {"X", "Y"} -> NumD [] c \in {"S", "T", "U"} -> StrD
            [] c \in {"P", "Q", "R"} -> NodeD [] c \in {"V", "W"} -> AtomD [] c \in {"D", "E"} -> CondD [] c = "I" -> KindD [] c = "K" -> KeyD [] c = "F" -> FunD
Letters == <<"A", "B", "C", "N", "M", "X", "Y", "S", "T", "U", "P", "Q", "R", "V", "W", "D", "E", "I", "K", "F">>

(* letters of a law, its number of instances, and the k-th of them            *)
HasLetter(t, c) == \E i \in 1..(Len(t) - 1) : t[i] = 37 /\ t[i + 1] = S(c)[1]
Of(law) == LET l == S(Laws[law].l)  r == S(Laws[law].r) IN SelectSeq(Letters, LAMBDA c : HasLetter(l, c) \/ HasLetter(r, c))
RECURSIVE Count(_)
Count(cs) == IF cs = <<>> THEN 1 ELSE Len(Dom(Head(cs))) * Count(Tail(cs))
RECURSIVE Pick(_, _)
Pick(cs, k) == IF cs = <<>> THEN <<>> ELSE LET n == Len(Dom(Head(cs))) IN <<[c |-> S(Head(cs))[1], t |-> S(Dom(Head(cs))[(k % n) + 1])]>> \o Pick(Tail(cs), k \div n)
RECURSIVE Fill(_, _)
Fill(t, as) == IF as = <<>> THEN t
               ELSE LET a == Head(as)
                        go(r, i) == IF t[i] = 37 /\ i < Len(t) /\ t[i + 1] = a.c THEN r \o a.t
                                    ELSE IF i > 1 /\ t[i - 1] = 37 /\ t[i] = a.c THEN r ELSE Append(r, t[i])
                    IN Fill(FoldLeft(go, <<>>, Tup([i \in 1..Len(t) |-> i])), Tail(as))
Instances(law, n, off) == LET c == Count(Of(law)) IN {(off + j * 7919) % c : j \in 0..(Min2(n, c) - 1)}

VARIABLES sid, vLaw, vInst, vDone
vars == <<sid, vLaw, vInst, vDone>>
E == Starts[sid]
Side(t) == Fill(S(t), Pick(Of(vLaw), vInst))
Init == /\ sid \in 1..Len(Starts) /\ vDone = FALSE
        /\ \E i \in {x \in 1..Len(Laws) : Laws[x].p = E.p} : vLaw = i /\ vInst \in Instances(i, E.n, E.off)

Shown(f, v, i) == IF IsNode(v[i]) THEN Ok([n |-> v[i].id, s |-> <<>>])
                  ELSE Then(ItemText(f, v[i]), LAMBDA t : Ok([n |-> -1, s |-> t]))
Same(f, a, b) ==
    IF a.s = "oom" \/ b.s = "oom" THEN "open"
    ELSE IF IsOk(a) # IsOk(b) THEN "differ"
    ELSE IF ~IsOk(a) THEN "both fail"
    ELSE IF Len(a.v) # Len(b.v) THEN "differ"
    ELSE LET rs == {LET x == Shown(f, a.v, i)  y == Shown(f, b.v, i) IN
                    IF ~IsOk(x) \/ ~IsOk(y) THEN "open" ELSE IF x.v = y.v THEN "same" ELSE "differ" : i \in 1..Len(a.v)} IN
         IF "differ" \in rs THEN "differ" ELSE IF "open" \in rs THEN "open" ELSE "same"
Verdict == Same(E.nodes, Query(E.nodes, E.ctx, Side(Laws[vLaw].l)), Query(E.nodes, E.ctx, Side(Laws[vLaw].r)))
(* The verdict is part of the state, so that the law is an invariant.         *)
Compare == /\ vDone = FALSE
           /\ LET v == Verdict IN
              /\ PrintT(<<"@@", "LAW", sid, vLaw, ToJson([v |-> v, l |-> Side(Laws[vLaw].l), r |-> Side(Laws[vLaw].r)])>>)
              /\ vDone' = (v # "differ")
           /\ UNCHANGED <<sid, vLaw, vInst>>
Next == Compare
Spec == Init /\ [][Next]_vars
LawsHold == [][vDone']_vars
=============================================================================
