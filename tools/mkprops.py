#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that titles, statements and anchors stay in step)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,**({"state":state} if state else {}),
                 "mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or [],"hook_needed":None}})
SAX="src/sax.rs"; DOM="src/dom.rs"; LEX="src/xpath_impl/lexer.rs"; PAR="src/xpath_impl/parser.rs"
EV="src/xpath_impl/eval.rs"; FN="src/xpath_impl/func.rs"; OP="src/xpath_impl/oper.rs"; IT="src/xpath_impl/xitem.rs"; SQ="src/xpath_impl/xsequence.rs"; XP="src/xpath.rs"
xpo=["NodePtr::eval_xpath result (items, Display)"]
p("P01","SAX tokens are exactly those of the XML lexical grammar",
  "For every document text, pulling tokens yields, in order and exactly once, every start tag (name, attributes with their values in order), end tag (a self-closing tag gives both), character data, CDATA section, comment, processing instruction and directive written in it, and then reports end of input for good. Text that is not lexically well formed (unterminated construct, tag without name, attribute without `=` or quotes, stray characters in a tag) gives an error at that construct, never a made-up or silently dropped token.",
  ["inputs"],"every document text (any characters)",
  "15 hand-written documents are tokenised by the tests; the grammar's interactions (quote inside the other quote, '>' in values, `]]` runs in CDATA, '?' runs in PIs, nested brackets in directives, name characters outside ASCII) are infinite.",
  [SAX],[("SaxDecoder::raw_token",SAX),("get_name/is_name_char tables",SAX),("get_until, look_ahead_keyword",SAX)],["SaxDecoder::raw_token"])
p("P02","References are decoded exactly once, and only in text and attribute values",
  "Character references (decimal and hexadecimal) and the five predefined entities in text and attribute values are replaced by their character exactly once, whatever stands around them; unknown named entities, and an ampersand that begins no reference, are left as written. CDATA, comments, processing instructions and directives are never decoded, and every line end (CRLF, CR, LF) becomes one LF before anything else.",
  ["inputs"],"every text and attribute value containing references, next to any characters",
  "Tests use 4 references in isolation; double decoding, ordering between passes and boundary code points need arbitrary neighbours.",
  [SAX],[("decode_entity",SAX),("SaxDecoder::new line-end normalisation",SAX)],["SaxDecoder::raw_token","NodePtr::value"])
p("P03","A document is accepted iff its tags nest, and the tree is the one written",
  "Building a document succeeds exactly when the text is lexically well formed and every start tag is closed by the matching end tag in nesting order; otherwise it is an error. The tree then contains exactly the written elements, attributes, text, comments and processing instructions, each under the element that encloses it and in the written order, with parent, child, root and sibling links consistent with each other.",
  ["inputs"],"every document text",
  "Tests build a few well-formed documents and one mismatch; acceptance and tree shape over all nestings are not sampled.",
  [DOM,SAX],[("new_document",DOM),("NodePtr::parent/children/root/root_element/nth_child",DOM)],["new_document","NodePtr accessors"])
p("P04","Serialisation is faithful: parse(to_string(d)) is d",
  "For every document, the string form re-parses to the same tree (adjacent texts merged, empty texts dropped) whatever characters names, values, comments and instructions contain; serialising that again gives the same string (an element holding only empty texts becomes an empty tag). The pretty form contains the same markup, one construct per line, indented by four spaces per level, and the inner form is the concatenation of the children's string forms. The sample program prints the pretty form of the document in the file it is given, and fails, printing nothing on standard output, when the file is no document.",
  ["inputs","histories"],"every document and every node of it, parsed or obtained by mutation",
  "Doctests compare three fixed strings; escaping in both text and attribute position over all characters is not covered.",
  [DOM],[("to_string_with_indent",DOM),("encode_entity",DOM),("inner_xml",DOM),("pretty_print","src/main.rs")],["NodePtr::to_string","to_pretty_string","inner_xml","amxml FILE: standard output and exit status"])
p("P05","Every history of DOM edits leaves exactly the edited tree",
  "After any sequence of append, insert before/after, replace, delete, set-attribute and delete-attribute calls on any nodes (including nodes already detached, copies from another document or from the same tree), the tree equals the one obtained by applying the documented effect of each call in turn: copies are deep and independent, everything else is unchanged. Parent, child, attribute and root links of every node ever obtained stay consistent; a detached subtree becomes its own root, and so does a node when the last handles to what is above it are dropped; no call panics.",
  ["histories"],"every sequence of mutation calls on every document",
  "Each mutator has one doctest with one call; interactions between calls (insert after delete, copy of an edited tree, editing detached nodes) have none.",
  [DOM],[("append_child, insert_as_*_sibling, delete_child, replace_with",DOM),("set_attribute, delete_attribute",DOM),("copy_rc_tree, detach_rc_node",DOM)],["NodePtr accessors after each call"],
  [{"name":"children/attributes/parent","meaning":"the tree","where":"src/dom.rs Node"}])
p("P06","Paths return each node once, in document order, also after edits",
  "The result of a path expression contains no node twice and lists nodes in document order, with a node before its attributes and those before its children, whatever axes and steps it uses and however the document was edited before the query, or its upper part dropped. Node order comparisons agree with the same order.",
  ["inputs","histories"],"every path on every document after every history of edits",
  "Tests query freshly parsed small documents; the lazily cached order and merging of step results depend on edits and path shapes.",
  [EV,DOM,SQ],[("document order cache: document_order/setup_document_order/clear_document_order",DOM),("sorting and deduplication of step results",EV+", "+SQ)],["eval_xpath/get_nodeset after mutations"],
  [{"name":"order","meaning":"cached document order","where":"src/dom.rs Node.order"}])
p("P07","Each axis selects exactly the nodes its definition names",
  "From every node of every document (elements, attributes, texts, comments, instructions, the root), each of the twelve supported axes and their abbreviations (`@`, `..`, `//`, leading `/`) selects exactly the nodes XPath defines for it. In particular self, ancestor, descendant, preceding and following partition the tree's non-attribute nodes, and each axis is the inverse of its counterpart.",
  ["inputs"],"every tree, context node and axis",
  "Tests use one tree shape and one context per axis.",
  [EV,PAR],[("axis functions",EV),("step parsing and abbreviations",PAR)],xpo)
p("P08","Predicates filter by position along the axis or by boolean value",
  "A predicate in a step counts positions along the axis direction (reverse for parent, ancestor, preceding and their siblings), one on a parenthesised or other primary expression counts in sequence order; a single number selects that position, anything else its effective boolean value. `position()` and `last()` inside predicates, on the right of `/` and `!`, reflect the sequence being filtered, and consecutive predicates each renumber what the previous one left.",
  ["inputs"],"every step, axis, predicate chain and context sequence",
  "Tests check a handful of fixed positions; renumbering, reverse axes and nested contexts multiply.",
  [EV,PAR],[("predicate filtering",EV),("evaluation environment position/last",EV),("fn_position, fn_last",FN)],xpo)
p("P09","Node tests match exactly by node kind, name and prefix",
  "A name test matches only nodes of the axis's principal kind (attributes on the attribute axis, elements elsewhere) whose qualified name is equal; `*`, `p:*` and `*:n` match any name, any name with that prefix, any name with that local part. The kind tests node(), text(), comment(), processing-instruction(), element() and attribute(), with or without names, match exactly the nodes of that kind (and name).",
  ["inputs"],"every node test on every kind of node",
  "Tests use a few names and kinds; near-miss names (prefix or substring relations, same name on element and attribute) are unlimited.",
  [EV,PAR,IT],[("node test matching",EV),("item type derivation",IT)],xpo)
p("P10","Node set operators are set algebra; is, << and >> compare identity and order",
  "union (`|`), intersect and except of node sequences give exactly the set union, intersection and difference by node identity, without duplicates and in document order, for any operands. `is` holds only for the same node, `<<` and `>>` exactly when the left node precedes or follows the right one in document order.",
  ["inputs"],"all pairs of node sequences",
  "Tests use two or three fixed operand pairs without duplicates or disorder.",
  [OP,EV,SQ],[("union/intersect/except",OP),("is, <<, >>",OP)],xpo)
p("P11","Expressions are parsed with XPath's operator precedence and associativity",
  "Any combination of the operators `,` for/let/some/every/if, or, and, comparisons, `||`, `to`, additive, multiplicative, union, intersect/except, instance of, castable, cast, `=>`, unary signs, `!`, paths and predicates groups as the XPath 3.1 grammar says, so that adding the implied parentheses changes nothing. Operator words are operators only in operator position and remain usable as names elsewhere.",
  ["inputs"],"all well-formed expressions",
  "Tests check some pairs of operators; the combinations are combinatorial.",
  [PAR,LEX],[("recursive-descent parser",PAR),("token disambiguation",LEX)],xpo)
p("P12","Comparisons follow the value and general comparison rules",
  "Value comparisons (eq ne lt le gt ge) of two single items follow the numeric, string or boolean order of their atomized values, yield nothing when an operand is empty, and are an error for incomparable types or several items. General comparisons (= != < <= > >=) are true exactly when some pair of items, one from each side, satisfies the corresponding value comparison.",
  ["inputs"],"all pairs of sequences of atomic values and nodes",
  "Tests compare a few pairs; NaN, mixed types, empty and multi-item operands multiply.",
  [OP,EV],[("value and general comparison operators",OP)],xpo)
p("P13","Arithmetic is typed and exact; overflow and division by zero are errors",
  "+, -, *, div, idiv, mod and unary signs give the mathematical value with XPath's result type (integer, decimal or double by promotion; integer div is decimal, idiv is an integer). Integer overflow, integer or decimal division by zero and idiv of NaN/infinity are errors rather than wrong values or aborts; double arithmetic yields infinities and NaN as IEEE 754 says.",
  ["inputs"],"all operand values and types, including the limits of 64-bit integers",
  "Tests use small positive operands.",
  [OP,EV,LEX],[("arithmetic operators",OP),("numeric literals",LEX)],xpo)
p("P14","Boolean value, and/or/not and if agree with the effective boolean value",
  "The effective boolean value of an empty sequence is false, of a sequence starting with a node true, of a single boolean, string or number its truth value, and of anything else an error. boolean(), not(), and, or, if, predicates, some, every and filter all use it; and/or do not evaluate (so cannot fail in) an operand that no longer matters, if only evaluates the branch taken.",
  ["inputs"],"all expressions in boolean position",
  "Tests use a few literals.",
  [EV,OP,SQ],[("effective boolean value",SQ),("and/or/if/quantified evaluation",EV)],xpo)
p("P15","Variables are lexically scoped in for, let, some and every",
  "for binds its variables over all combinations in nesting order and concatenates the results in that order, let binds a whole sequence, some/every quantify over all combinations; a later clause sees the earlier variables. Each binding is visible exactly in the clauses after it and its body: an inner binding of the same name shadows and then restores the outer one, on every way out of the expression.",
  ["inputs"],"all nestings of binding expressions and all sequences bound",
  "Tests use at most two variables and rarely reuse a name.",
  [EV],[("evaluation environment variable stack",EV)],xpo)
p("P16","Sequence functions obey their definitions for every sequence",
  "head, tail, insert-before, remove, reverse, subsequence, index-of, empty, exists, count, zero-or-one, one-or-more and exactly-one return exactly the items their definition selects, in order, for any sequence, position and length (including zero, negative and out-of-range ones). Sequences never nest, and `to` yields the ascending integers between its operands.",
  ["inputs"],"all sequences of items and all numeric arguments",
  "Tests use 1-3 arguments per function.",
  [FN,SQ],[("fn_head .. fn_exactly_one",FN)],xpo)
p("P17","String functions work on characters and agree with their definitions",
  "concat, string-join, substring, string-length, normalize-space, upper-case, lower-case, translate, contains, starts-with, ends-with, substring-before, substring-after, compare, codepoint-equal, codepoints-to-string and string-to-codepoints treat strings as sequences of Unicode characters and return what XPath defines for every argument, including empty strings, empty sequences, nodes, and positions outside the string.",
  ["inputs"],"all strings (any Unicode characters) and positions",
  "Tests use short ASCII strings.",
  [FN],[("string functions",FN)],xpo)
p("P18","Maps and arrays behave as finite functions",
  "A map or array constructor holds exactly the given members; lookup (`?`), call syntax, map:get, array:get, map:contains, map:keys, map:size, array:size, array:flatten and iteration over them agree with each other for every key or index, absent keys give the empty sequence in lookups, and out-of-range array indexes are errors. Members may be any sequences, including maps and arrays.",
  ["inputs"],"all maps, arrays, keys and indexes",
  "Tests use a few literal maps.",
  [EV,FN,IT],[("map/array construction and lookup",EV),("map:* and array:* functions",FN)],xpo)
p("P19","instance of, cast, castable agree with the type hierarchy and lexical spaces",
  "`instance of` holds exactly when the number of items fits the occurrence indicator and every item has a type derived from the named one. `cast as` converts between string, boolean, integer, decimal and double as XPath defines, or is an error exactly when `castable as` says false.",
  ["inputs"],"all values and all sequence types",
  "Tests use some of the type/value combinations.",
  [EV,IT,PAR],[("match_sequence_type, derives_from",IT+", "+EV),("cast_as",EV)],xpo)
p("P20","Queries are pure, deterministic, and the four query methods agree",
  "eval_xpath, get_nodeset, get_first_node and each_node see the same result: the nodes of the value in its order, the first of them, and the same error if any. Evaluating any expression, even a failing one, leaves the document unchanged, and evaluating it again gives the same result. each_node calls back once for each node selected before the first call, also when the callback edits the document.",
  ["inputs","histories"],"all expressions, documents and context nodes",
  "Tests call one of the methods on each expression.",
  [XP],[("eval_xpath, get_nodeset, get_first_node, each_node",XP)],["NodePtr::eval_xpath","get_nodeset","get_first_node","each_node"])
p("P21","Parsing and evaluation are total: a value or an error, never a panic or hang",
  "For every input string, tokenising, building a document, serialising it and evaluating an XPath expression in any context terminate with a value or an error. No input text, well formed or not, makes the library panic or loop, and no query ends in an error by which the library reports a fault of its own.",
  ["inputs"],"every string as document and as XPath expression",
  "Tests feed almost only valid input.",
  [SAX,DOM,LEX,PAR,EV,FN,OP],[("error returns throughout",PAR)],["process outcome of every call"])
p("P22","Aggregates, rounding and number formatting are exact",
  "sum, avg, max, min and count over any sequence give the value and type XPath defines (and nothing, zero or the given default for the empty sequence); abs, ceiling, floor and round give the exact neighbours with the argument's type. number() and string() convert between numbers and strings without changing the value, and numbers print in the library's notation for their type.",
  ["inputs"],"all sequences of numbers, all numbers",
  "Tests use a few sequences of small integers.",
  [FN,SQ,IT],[("fn_sum, fn_avg, fn_max, fn_min",FN),("rounding functions",FN),("Display of items",IT)],xpo)
p("P23","Function items: references, inline functions, partial application, arrow",
  "Calling a function through a named reference, an inline function, a partial application, `=>`, for-each or filter gives the same result as the direct call with the same arguments in the same places; parameters are bound for the body only and do not affect the caller's variables. A call with the wrong number of arguments is an error.",
  ["inputs"],"all function items, argument lists and placeholder positions",
  "Tests have one or two examples of each form.",
  [EV,FN,PAR],[("function calls, partial application",EV),("for-each, filter",FN)],xpo)
p("P24","White space and comments between tokens never change meaning",
  "Inserting any white space or (nested) comment between the tokens of an expression, or removing it where tokens stay separate, does not change its value; inside string literals every character counts, doubled quotes stand for one. Numeric literals are integer, decimal or double by their form.",
  ["inputs"],"all expressions and all layouts of them",
  "Tests are written in one layout each.",
  [LEX],[("Lexer: white space, comments, literals, names",LEX)],xpo)
p("P25","Names, string values and namespace URIs of nodes are those of the document",
  "For every node, name, local-name, prefix, namespace URI, string value, number value, typed data, nilled and lang agree between the node methods, the XPath functions and the document text: the string value of an element is the concatenation of its descendant texts, and namespace declarations and xml:lang are inherited from the nearest ancestor that has them.",
  ["inputs"],"all documents and nodes",
  "Tests look at one or two nodes per function.",
  [DOM,FN],[("local_name, space_name, namespace_uri",DOM),("fn_name, fn_local_name, fn_namespace_uri, fn_string, fn_data, fn_number, fn_lang, fn_nilled",FN)],xpo+["NodePtr::name etc."])
p("P26","Ill-formed expressions are rejected, well-formed ones accepted",
  "An expression that the supported XPath grammar does not derive (missing operand, unbalanced bracket, wrong keyword, trailing tokens, unknown function or axis, unterminated literal or comment) is an error, never a value computed from a prefix of it. An expression the grammar derives is never rejected as a syntax error, and the error for one it does not derive says that it is a syntax error. An expression that uses a feature documented as not implemented is refused with an error; it never silently gives a value.",
  ["inputs"],"all token sequences",
  "Tests contain few syntax errors.",
  [PAR,LEX],[("compile",PAR),("lex",LEX)],xpo)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
