------------------------------ MODULE FnSigs ------------------------------
(* Signatures of the functions (XPath and XQuery Functions and Operators,   *)
(* with numeric for the union of the numeric types).                        *)
EXTENDS Naturals, Sequences
Sigs == <<
  [n |-> "nilled", ar |-> 0, sig |-> "function() as xs:boolean?"],
  [n |-> "nilled", ar |-> 1, sig |-> "function(node()?) as xs:boolean?"],
  [n |-> "string", ar |-> 0, sig |-> "function() as xs:string"],
  [n |-> "string", ar |-> 1, sig |-> "function(item()?) as xs:string"],
  [n |-> "data", ar |-> 0, sig |-> "function() as xs:anyAtomicType*"],
  [n |-> "data", ar |-> 1, sig |-> "function(item()*) as xs:anyAtomicType*"],
  [n |-> "abs", ar |-> 1, sig |-> "function(numeric?) as numeric?"],
  [n |-> "ceiling", ar |-> 1, sig |-> "function(numeric?) as numeric?"],
  [n |-> "floor", ar |-> 1, sig |-> "function(numeric?) as numeric?"],
  [n |-> "round", ar |-> 1, sig |-> "function(numeric?) as numeric?"],
  [n |-> "number", ar |-> 0, sig |-> "function() as xs:double"],
  [n |-> "number", ar |-> 1, sig |-> "function(xs:anyAtomicType?) as xs:double"],
  [n |-> "codepoints-to-string", ar |-> 1, sig |-> "function(xs:integer*) as xs:string"],
  [n |-> "string-to-codepoints", ar |-> 1, sig |-> "function(xs:string?) as xs:integer*"],
  [n |-> "compare", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:integer?"],
  [n |-> "codepoint-equal", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:boolean?"],
  [n |-> "concat", ar |-> 2, sig |-> "function(xs:anyAtomicType?, xs:anyAtomicType?) as xs:string"],
  [n |-> "string-join", ar |-> 1, sig |-> "function(xs:string*) as xs:string"],
  [n |-> "string-join", ar |-> 2, sig |-> "function(xs:string*, xs:string) as xs:string"],
  [n |-> "substring", ar |-> 2, sig |-> "function(xs:string?, xs:double) as xs:string"],
  [n |-> "substring", ar |-> 3, sig |-> "function(xs:string?, xs:double, xs:double) as xs:string"],
  [n |-> "string-length", ar |-> 0, sig |-> "function() as xs:integer"],
  [n |-> "string-length", ar |-> 1, sig |-> "function(xs:string?) as xs:integer"],
  [n |-> "normalize-space", ar |-> 0, sig |-> "function() as xs:string"],
  [n |-> "normalize-space", ar |-> 1, sig |-> "function(xs:string?) as xs:string"],
  [n |-> "upper-case", ar |-> 1, sig |-> "function(xs:string?) as xs:string"],
  [n |-> "lower-case", ar |-> 1, sig |-> "function(xs:string?) as xs:string"],
  [n |-> "translate", ar |-> 3, sig |-> "function(xs:string?, xs:string, xs:string) as xs:string"],
  [n |-> "contains", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:boolean"],
  [n |-> "starts-with", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:boolean"],
  [n |-> "ends-with", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:boolean"],
  [n |-> "substring-before", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:string"],
  [n |-> "substring-after", ar |-> 2, sig |-> "function(xs:string?, xs:string?) as xs:string"],
  [n |-> "true", ar |-> 0, sig |-> "function() as xs:boolean"],
  [n |-> "false", ar |-> 0, sig |-> "function() as xs:boolean"],
  [n |-> "boolean", ar |-> 1, sig |-> "function(item()*) as xs:boolean"],
  [n |-> "not", ar |-> 1, sig |-> "function(item()*) as xs:boolean"],
  [n |-> "name", ar |-> 0, sig |-> "function() as xs:string"],
  [n |-> "name", ar |-> 1, sig |-> "function(node()?) as xs:string"],
  [n |-> "local-name", ar |-> 0, sig |-> "function() as xs:string"],
  [n |-> "local-name", ar |-> 1, sig |-> "function(node()?) as xs:string"],
  [n |-> "namespace-uri", ar |-> 0, sig |-> "function() as xs:anyURI"],
  [n |-> "namespace-uri", ar |-> 1, sig |-> "function(node()?) as xs:anyURI"],
  [n |-> "lang", ar |-> 1, sig |-> "function(xs:string?) as xs:boolean"],
  [n |-> "lang", ar |-> 2, sig |-> "function(xs:string?, node()) as xs:boolean"],
  [n |-> "root", ar |-> 0, sig |-> "function() as node()"],
  [n |-> "root", ar |-> 1, sig |-> "function(node()?) as node()?"],
  [n |-> "empty", ar |-> 1, sig |-> "function(item()*) as xs:boolean"],
  [n |-> "exists", ar |-> 1, sig |-> "function(item()*) as xs:boolean"],
  [n |-> "head", ar |-> 1, sig |-> "function(item()*) as item()?"],
  [n |-> "tail", ar |-> 1, sig |-> "function(item()*) as item()*"],
  [n |-> "insert-before", ar |-> 3, sig |-> "function(item()*, xs:integer, item()*) as item()*"],
  [n |-> "remove", ar |-> 2, sig |-> "function(item()*, xs:integer) as item()*"],
  [n |-> "reverse", ar |-> 1, sig |-> "function(item()*) as item()*"],
  [n |-> "subsequence", ar |-> 2, sig |-> "function(item()*, xs:double) as item()*"],
  [n |-> "subsequence", ar |-> 3, sig |-> "function(item()*, xs:double, xs:double) as item()*"],
  [n |-> "index-of", ar |-> 2, sig |-> "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*"],
  [n |-> "zero-or-one", ar |-> 1, sig |-> "function(item()*) as item()?"],
  [n |-> "one-or-more", ar |-> 1, sig |-> "function(item()*) as item()+"],
  [n |-> "exactly-one", ar |-> 1, sig |-> "function(item()*) as item()"],
  [n |-> "count", ar |-> 1, sig |-> "function(item()*) as xs:integer"],
  [n |-> "avg", ar |-> 1, sig |-> "function(xs:anyAtomicType*) as xs:anyAtomicType?"],
  [n |-> "max", ar |-> 1, sig |-> "function(xs:anyAtomicType*) as xs:anyAtomicType?"],
  [n |-> "min", ar |-> 1, sig |-> "function(xs:anyAtomicType*) as xs:anyAtomicType?"],
  [n |-> "sum", ar |-> 1, sig |-> "function(xs:anyAtomicType*) as xs:anyAtomicType"],
  [n |-> "sum", ar |-> 2, sig |-> "function(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?"],
  [n |-> "position", ar |-> 0, sig |-> "function() as xs:integer"],
  [n |-> "last", ar |-> 0, sig |-> "function() as xs:integer"],
  [n |-> "for-each", ar |-> 2, sig |-> "function(item()*, function(item()) as item()*) as item()*"],
  [n |-> "filter", ar |-> 2, sig |-> "function(item()*, function(item()) as xs:boolean) as item()*"],
  [n |-> "map:size", ar |-> 1, sig |-> "function(map(*)) as xs:integer"],
  [n |-> "map:keys", ar |-> 1, sig |-> "function(map(*)) as xs:anyAtomicType*"],
  [n |-> "map:contains", ar |-> 2, sig |-> "function(map(*), xs:anyAtomicType) as xs:boolean"],
  [n |-> "map:get", ar |-> 2, sig |-> "function(map(*), xs:anyAtomicType) as item()*"],
  [n |-> "array:size", ar |-> 1, sig |-> "function(array(*)) as xs:integer"],
  [n |-> "array:get", ar |-> 2, sig |-> "function(array(*), xs:integer) as item()*"],
  [n |-> "array:flatten", ar |-> 1, sig |-> "function(item()*) as item()*"]
>>
=============================================================================
