"""Sizes: the same properties on inputs that are long, wide or deep (up to a
few hundred nodes, items, characters, bindings, members or levels)."""
import random
from . import core, dom_checks, gen_xml as g
from .xp_checks import ask, pack

def size(r, hi=300):
    return r.choice([r.randint(9, 13), r.randint(14, 20), r.randint(30, 36), r.randint(60, 70), r.randint(98, 104), r.randint(125, 132), r.randint(250, 260), r.randint(9, hi)])

# ------------------------------------------------------------------ documents
def wide(r, n):
    """a root with n children of many kinds, some of which have children"""
    out, k = [], 0
    while k < n:
        k += 1; c = r.random()
        if c < .55: out.append('<i n="%d">%d</i>' % (k, k))
        elif c < .7: out.append('<b n="%d"%s/>' % (k, ' c="%d"' % (k % 7) if r.random() < .5 else ''))
        elif c < .8: out.append('<!--%d-->' % k)
        elif c < .85: out.append('<?p %d?>' % k)
        elif c < .93: out.append('t%d' % k)
        else: out.append('<g>%s</g>' % ''.join('<i n="%d.%d"/>' % (k, j) for j in range(r.randint(1, 4))))
    return '<r a="1">%s</r>' % ''.join(out)

def deep(r, n):
    rare = r.choice([.6, .6, .93])
    s = '<z n="0">end</z>'
    for k in range(1, n):
        nm = r.choice(['d', 'd', 'e', 'p:d'])
        at = '' if r.random() < rare else r.choice([' n="%d"' % k, ' xmlns="u%d"' % k, ' xmlns:p="v%d"' % k, ' xml:lang="l%d-x"' % k])
        s = '<%s%s>%s%s%s</%s>' % (nm, at, r.choice(['', '<s/>', 't']), s, r.choice(['', '<f n="%d"/>' % k, '']), nm)
    return '<r xmlns:p="v">%s</r>' % s

def attrs(r, n):
    return '<r>%s<q/></r>' % ''.join('<m%s>%s</m>' % (''.join(' a%d="%d"' % (i, i * i) for i in range(k)), c) for k, c in ((n, '<q/>t<q w="1"/>'), (3, ''), (n // 2, '')))

def docs(r, full):
    n = 5 if full else 2
    return [wide(r, (size(r) if k else r.randint(300, 330))) for k in range(n)] + [deep(r, r.choice([12, 20, 34] if k else [34, 66, 101])) for k in range(n)] + [attrs(r, r.choice([10, 17, 33] if k % 2 else [65, 120])) for k in range(n)]

def paths(r, ctx=True):
    k = lambda: size(r, 200)
    return ['//i[%d]' % r.randint(1, 9), '/r/i[%d]' % k(), '/r/*[%d]' % k(), '/r/node()[%d]' % k(), '(//i)[%d]' % k(), '(//node())[%d]' % k(), '//node()[last()]', '/r/node()[last() - %d]' % k(),
            '(//*)[position() mod %d = 0]' % r.choice([7, 11, 13]), '/r/node()[position() >= %d and position() <= %d]' % (k(), k()), '(//d/ancestor::*)[%d]' % k(), '//z/ancestor::*[%d]' % r.randint(1, 40), '//z/ancestor::node()[last()]',
            '//z/ancestor-or-self::*[position() > %d]' % r.randint(1, 30), '(//i)[%d]/preceding::node()[%d]' % (k(), k()), '(//i)[%d]/following::node()[%d]' % (k(), k()), '(//node())[%d]/following-sibling::node()[%d]' % (k(), k()),
            '(/r/node())[%d]/preceding-sibling::node()[%d]' % (k(), k()), '(//i)[last()]/preceding-sibling::*[last()]', '//m[1]/@*[%d]' % k(), '(//@*)[%d]' % k(), '//m/@a%d' % r.randint(0, 70), '//@n[. = "%d"]/..' % k(), '//i[. = "%d"]' % k(),
            '/r/*[%d]/following-sibling::*[1]' % k(), '/r/i[last()]', '//i[last()]', '//s/following::*[%d]' % k(), '//f[%d]' % r.randint(1, 3), '(//f)[%d]/preceding::*' % r.randint(1, 12), '/r' + '/*' * r.choice([3, 10, 18, 33]), '//z' + '/..' * r.choice([3, 10, 18, 33]),
            '(//z/ancestor::*)[%d]/@n' % k(), '//g/i[2]', '//g[last()]/i', '//g[%d]/i[last()]' % r.randint(1, 9), '(//g/i)[last()]/../preceding-sibling::g[1]', '//comment()[%d]' % k(), '//text()[%d]' % k(), '/r/text()[last()]', '/r/node()[last()]/preceding-sibling::node()[last()]', '(/r/node())[last()]/preceding::node()[position() > 250]', '/r/node()[last()]/preceding-sibling::node()[%d]' % r.randint(250, 270), '(//m)[1]/(q | @*)[%d]' % k(), '//processing-instruction()[%d]' % r.randint(1, 20)]

def sets(r):
    k = lambda: size(r, 200)
    return ['//m/(q | @*)', 'reverse(//m/(q | @*))/.', '(reverse(//m/node()), reverse(//@*))/.', '//m[1]/@*[last()] << //m[1]/q[1]', '//m[1]/@*[last()] >> //m[1]/@*[last() - 1]', '//b | //i', '(//b, //i, //b)/.', 'reverse(//i)/.', '(//i, //b) ! .', '//i except //i[position() > %d]' % k(), '//* intersect /r/*[position() < %d]' % k(), '//node() except //i', '(//i | //@n)[%d]' % k(), '(//node() | //@*)[%d]' % k(),
            '(//node())[%d] << (//node())[%d]' % (k(), k()), '(//node())[%d] >> (//@*)[%d]' % (k(), k()), '(//*)[%d] is (//*)[%d]' % ((k(),) * 2), '(//z/ancestor::*, //s)/.', '(//s, reverse(//z/ancestor::*))/.', '(//f | //s)[last()]', '//d/.. | //e/..', '(reverse(//*) except //i)/.',
            '(%s)/.' % ', '.join('(//node())[%d]' % k() for _ in range(14)), ' | '.join('(//node())[%d]' % k() for _ in range(12))]

# ------------------------------------------------------------------ expressions
def txt(r, n):
    return ''.join(r.choice('abcdeXYZ 0 é\u6bb5\U0001d11e-') for _ in range(n))
def seq(r, n):
    k = r.random()
    if k < .4: return '(%d to %d)' % (r.randint(-3, 3), n)
    if k < .6: return '(for $q in 1 to %d return $q mod %d)' % (n, r.choice([3, 7, 10]))
    if k < .8: return '(%s)' % ', '.join(str(r.randint(0, 99)) for _ in range(min(n, 60)))
    return '((1 to %d), "x", (1 to %d))' % (n // 2, n // 2)

def q12(r):
    n = size(r); t = txt(r, n).replace('"', ''); u = t[:-1] + ('a' if t[-1] != 'a' else 'b')
    return ['%s = %d' % (seq(r, n), n), '(1 to %d) != (1 to %d)' % (n, n), '(1 to %d) = (%d to %d)' % (n, n, 2 * n), '(1 to %d) >= %d' % (n, n), '(1 to %d) > %d' % (n, n), '"%s" eq "%s"' % (t, u), '"%s" lt "%s"' % (t, u), '"%s" = ("a", "%s")' % (t, t), '"%s" lt "%s"' % (t, t + 'a'), '//@n = %d' % n, '//i > %d' % n, '//i = //b/@n']
def q11(r):
    lv = [['+', '-'], ['*', 'div', 'idiv', 'mod'], ['=', '<'], ['and'], ['or'], ['||'], ['to']]
    out = []
    for _ in range(4):
        n = r.choice([9, 16, 31, 60]); s = str(r.randint(1, 9))
        for _ in range(n): s += ' %s %d' % (r.choice(lv[0] + lv[1][:1] + ['-', '+', 'mod']), r.randint(1, 9))
        out.append(s)
        out.append(' or '.join(' and '.join('%d = %d' % (r.randint(1, 2), r.randint(1, 2)) for _ in range(r.randint(1, 4))) for _ in range(n // 3)))
        out.append('-' * n + '3'); out.append('(' * n + '1 + 2' + ')' * n + ' * 3'); out.append(' || '.join('"%d"' % i for i in range(n))); out.append(' - '.join(str(r.randint(1, 99)) for _ in range(n)))
    return out
def q13(r):
    n = size(r)
    return [' + '.join('%d' % r.randint(-99, 99) for _ in range(min(n, 60))).replace('+ -', '- '), ' * '.join(['2'] * r.choice([62, 63, 64, 30])), ' * '.join(['1.5'] * r.choice([9, 12, 20])), ' * '.join(['1.5e0'] * r.choice([9, 40])), '%s div 7' % ('9' * r.randint(5, 18)), '%s mod %s' % ('8' * 18, '7' * r.randint(2, 17)), '1.%s + 1' % ('3' * r.randint(3, 15))]
def q14(r):
    n = size(r)
    return ['every $q in 1 to %d satisfies $q < %d' % (n, n + r.randint(0, 1)), 'some $q in 1 to %d satisfies $q = %d' % (n, n + r.randint(0, 1)), ' and '.join(['true()'] * min(n, 50) + [r.choice(['1', '0', '()'])]), ' or '.join(['()'] * min(n, 50) + [r.choice(['1', '0', '"a"'])]),
            'not(' * 12 + '1' + ')' * 12, 'boolean((//node())[%d])' % n, ''.join('if (%d) then %d else ' % (0, i) for i in range(min(n, 30))) + '"end"', 'boolean(//i)', 'count((1 to %d)[. mod 2 = 0])' % n, 'every $x in //i satisfies $x/@n', 'some $x in //i satisfies $x = "%d"' % n]
def q15(r):
    n = r.choice([9, 12, 17, 33]); vs = ['v%d' % i for i in range(n)]
    out = ['let %s return (%s)' % (', '.join('$%s := %s' % (v, '$%s + 1' % vs[i - 1] if i else '1') for i, v in enumerate(vs)), ', '.join('$' + v for v in vs)),
           ' '.join('let $x := %s return' % ('$x + %d' % i if i else '1') for i in range(n)) + ' $x', 'for %s return %s' % (', '.join('$%s in (1, 2)' % v for v in vs[:5]), ' + '.join('$' + v for v in vs[:5])),
           'let $x := 0 return (%s, $x)' % ', '.join('(let $x := %d return $x)' % i for i in range(n)), 'for $x in 1 to %d return let $y := $x return if ($y mod 10 = 0) then $y else ()' % size(r), 'some %s satisfies %s' % (', '.join('$%s in (1, 2)' % v for v in vs[:4]), ' + '.join('$' + v for v in vs[:4]) + ' = 8'),
           'let $%s := 3 return $%s' % (('x' * size(r),) * 2), 'let $%sa := 3, $%sb := 4 return ($%sa, $%sb)' % (('y' * size(r, 99),) * 4 if False else ('y' * 70,) * 4)]
    pre = 'let %s, ' % ', '.join('$%s := "%s"' % (v, v) for v in vs)
    out += [pre + q for q in ('$x := 1 return ((let $x := 2 return $x), $x)', '$x := 1 return ((for $x in (2, 3) return $x), $x)', '$x := 1 return ((some $x in (2, 3) satisfies $x = 3), $x)', '$x := 1 return (function($x) { ($x, $v1) }(5), $x, $v2)', '$v1 := 3 return (let $v2 := $v1 return ($v1, $v2), $v2, $v1)', '$f := function() { $v3 }, $v3 := 9 return ($f(), $v3)', '$x := 1 return (every $x in (), $v1 in () satisfies $x, $x, $v1)', '$x := 1, $y := 2 return (for $y in (5, 6), $x in ($y, 7) return ($x, $y), $x, $y)')]
    s = '$x'
    for i in range(n): s = '(for $x in ($x, %d)[last()] return %s)' % (i, s)
    return out + ['let $x := 7 return %s' % s]
def q16(r):
    n = size(r); m = size(r)
    A = seq(r, n)
    return ['count(%s)' % A, 'reverse(%s)' % A, 'subsequence(%s, %d)' % (A, m), 'subsequence(%s, %d, %d)' % (A, m // 2, m), 'remove(%s, %d)' % (A, m), 'insert-before(%s, %d, (7, 8))' % (A, m), 'index-of(%s, %d)' % (A, r.randint(1, 9)), 'head(%s)' % A, 'tail(%s)' % A, '(%s, %s)[%d]' % (A, A, m), 'empty(%s)' % A, 'exactly-one(%s)' % A, '%s[last()]' % A, '%s[. = 3]' % A,
            'count((%s, %s))' % (A, seq(r, m)), '%d to %d' % (m, m + 11), 'count(%d to %d)' % (m, m * 3), 'one-or-more(%s)[%d]' % (A, n), 'let $s := %s return ($s[%d], $s[%d], $s[%d], $s[%d])' % (A, n, n - 1, m, r.randint(1, n)), '(%s)[position() = (%d, %d)]' % (A, n, n // 2), 'distinct-values(%s)' % A]
def q17(r):
    n = size(r); t = txt(r, n); u = txt(r, 3); k = r.randint(0, n)
    S = '"%s"' % t
    return ['string-length(%s)' % S, 'upper-case(%s)' % S, 'lower-case(%s)' % S, 'substring(%s, %d)' % (S, k), 'substring(%s, %d, %d)' % (S, k, r.randint(1, n)), 'contains(%s, "%s")' % (S, t[k:k + 4]), 'contains(%s, "%s")' % (S, u), 'starts-with(%s, "%s")' % (S, t[:k]), 'ends-with(%s, "%s")' % (S, t[k:]), 'substring-after(%s, "%s")' % (S, t[k:k + 2]), 'substring-before(%s, "%s")' % (S, t[k:k + 2]),
            'translate(%s, "%s", "%s")' % (S, t[:k], txt(r, 40)), 'string-to-codepoints(%s)' % S, 'codepoints-to-string(string-to-codepoints(%s))' % S, 'compare(%s, "%s")' % (S, t[:-1] + 'q'), 'codepoint-equal(%s, "%s")' % (S, t), 'string-join((1 to %d) ! string(), "%s")' % (n, u), 'string-join(("%s"), "-")' % '", "'.join(t[:60]), 'concat(%s)' % ', '.join('"%s"' % c for c in t[:60].ljust(2)), '"%s" || "%s"' % (t, t), 'string-length(string-join(for $i in 1 to %d return "ab", ""))' % n, 'string(//r) = "%s"' % u, 'string-length(/)']
def q18(r):
    n = r.choice([9, 12, 17, 33, 40]); keys = [r.choice(['%d', '"k%d"', '%d.5']) % i for i in range(n)]; r.shuffle(keys)
    M = 'map{%s}' % ', '.join('%s: %d' % (k, i) for i, k in enumerate(keys)); m = size(r, 120); A = '[%s]' % ', '.join(r.choice(['%d', '(%d, 0)', '"%d"']) % i for i in range(min(m, 70)))
    nest = '1'; nm = '1'; d = r.choice([9, 17, 30])
    for i in range(d): nest = '[%s]' % nest; nm = 'map{"a": %s}' % nm
    return ['map:size(%s)' % M, 'map:keys(%s)' % M, '%s?*' % M, '%s(%s)' % (M, keys[-1]), '%s(%s)' % (M, r.choice(keys)), 'map:get(%s, %s)' % (M, r.choice(keys)), 'map:contains(%s, %s)' % (M, r.choice(keys)), 'map:contains(%s, "nokey")' % M, 'map:contains(%s, %s)' % (M, keys[-1]), 'map:get(%s, %s)' % (M, keys[-2]), 'map:contains(%s, %s)' % (M, keys[-2]), 'let $m := %s return map:keys($m) ! $m(.)' % M, 'array:size(%s)' % A, '%s(%d)' % (A, m), '%s?%d' % (A, min(m, 70)), '%s?*' % A, 'array:flatten(%s)' % A,
            'array{1 to %d}(%d)' % (m, m), 'array:size(array{1 to %d})' % m, 'array:flatten(%s)' % nest, nest + '(1)' * d, nm + '?a' * d, nest + '?1' * d, 'array{1 to %d}?(%d to %d)' % (m, m // 2, m), 'array:get(array{1 to %d}, %d)' % (m, m + 1)]
def q19(r):
    n = size(r); k = r.choice([9, 12, 17])
    return ['((1 to %d), "a") instance of xs:integer*' % n, '((1 to %d), 1.5) instance of xs:decimal+' % n, '((1 to %d), 2e0) instance of xs:decimal+' % n, '(//*, //@n) instance of element()*', '//* instance of element()+', '//i instance of element(i)*', '(//i, /) instance of node()*', '"%s" cast as xs:integer' % ('0' * n + '12'), '"%s1" castable as xs:integer' % ('9' * r.choice([17, 18, 19])), '"%s12%s" cast as xs:integer' % (' ' * n, ' ' * n), '"1.%s" castable as xs:decimal' % ('0' * n), '"%s" castable as xs:double' % ('1' * 30),
            'function(%s) { 1 } instance of function(%s) as item()*' % (', '.join('$a%d as xs:integer' % i for i in range(k)), ', '.join(['xs:integer'] * k)), 'function(%s) { 1 } instance of function(%s) as item()*' % (', '.join('$a%d as xs:integer' % i for i in range(k)), ', '.join(['xs:integer'] * (k - 1) + ['xs:string'])),
            'function(%s) { 1 } instance of function(%s) as item()*' % (', '.join('$a%d as xs:integer' % i for i in range(k)), ', '.join(['xs:integer'] * (k - 1))), 'array{1 to %d} instance of array(xs:integer)' % n, 'array{1 to %d, "a"} instance of array(xs:integer)' % n, 'map{%s} instance of map(xs:integer, xs:integer)' % ', '.join('%d: %s' % (i, i if i < 19 else r.choice(['1', '"x"'])) for i in range(20)), '[' * 9 + '1' + ']' * 9 + ' instance of ' + 'array(' * 9 + 'xs:integer' + ')' * 9, '[' * 9 + '"a"' + ']' * 9 + ' instance of ' + 'array(' * 9 + 'xs:integer' + ')' * 9]
def q22(r):
    n = size(r); A = r.choice(['(1 to %d)' % n, '((1 to %d), %d)' % (n, r.randint(-9, 999)), '(for $i in 1 to %d return $i * 1.5)' % n, '(for $i in 1 to %d return $i * 5e-1)' % n, '(for $i in 1 to %d return ($i * 37) mod 101)' % n])
    return ['sum(%s)' % A, 'avg(%s)' % A, 'max(%s)' % A, 'min(%s)' % A, 'count(%s)' % A, 'sum((%s, number("NaN")))' % A, 'max((%s, 1000000))' % A, 'min((%s, -1000000))' % A, 'max((for $i in 1 to %d return string($i)))' % n, 'min((for $i in 1 to %d return string($i)))' % n, 'string(%s.%s)' % ('1' * r.randint(1, 10), '2' * r.randint(1, 7)), 'string(1e%d)' % r.randint(1, 15), 'round(%s.5)' % ('7' * r.randint(1, 12)), 'sum(//i/@n[. castable as xs:integer] ! number())', 'max(//i/@n ! number())', 'avg(//i ! string-length())', 'number("%s")' % ('5' * r.randint(1, 25)), 'abs(-%s)' % ('6' * r.randint(1, 18))]
def q23(r):
    k = r.choice([9, 11, 13, 17]); ps = ['$a%d' % i for i in range(k)]; vals = [str(r.randint(0, 99)) for _ in ps]; hole = r.randrange(k); h2 = r.randrange(k)
    f = 'function(%s) { (%s) }' % (', '.join(ps), ', '.join(r.sample(ps, k)))
    hol = [('?' if i in (hole, h2) else v) for i, v in enumerate(vals)]
    return ['concat(%s)(%s)' % (', '.join('?' * k), ', '.join(vals)), 'let $f := %s(%s) return $f(%s)' % (f, ', '.join('?' * k), ', '.join(vals)), '%s(%s)' % (f, ', '.join(vals)), 'let $f := %s return $f(%s)(%s)' % (f, ', '.join(hol), ', '.join(['"h"', '"g"'][:hol.count('?')])), '%s(%s)' % (f, ', '.join(vals[1:])), 'concat(%s)' % ', '.join(vals * 3), 'concat(%s)(%s)' % (', '.join(hol), ', '.join(['"h"', '"g"'][:hol.count('?')])), '1' + ' => string()' * 12, '(1 to %d)' % size(r) + ' => reverse() => tail()' * 9, 'for-each(1 to %d, function($x) { $x * $x })' % size(r), 'filter(1 to %d, function($x) { $x mod 3 = 0 })' % size(r),
            ''.join('function($b%d) { ' % i for i in range(k)) + '(%s)' % ', '.join('$b%d' % i for i in range(k)) + ' }' * k + ''.join('(%s)' % v for v in vals), 'concat#%d(%s)' % (k, ', '.join(vals)), 'concat#%d(%s)' % (k, ', '.join(vals[1:])), 'let $f := function($x) { $x + 1 } return 0' + ' => $f()' * 20, 'count(for-each(//node(), function($x) { $x/.. }))', 'filter(//i, function($x) { $x/@n = "%d" })' % size(r)]
def q24(r):
    n = size(r)
    return ['(:%s:) 1' % ('x' * n), '1%s+%s2' % (' ' * n, '\n' * n), '(:' * 20 + ' a ' + ':)' * 20 + '7', '1 (:%s:) + (: :) 2' % ('*(' * 30), '(//i)[%s%d%s]' % (' ' * n, 3, '(: c :)' * 20), ' (: a :) '.join(['1', '+', '2', '*', '3', '-', '4', 'div', '5', 'eq', '6', 'or', '0']), '"%s"' % ('a' * n + '(: :)' * 9), "'%s'" % ("''" * n), '"%s"' % ('""' * n), '(:' * 20 + ':)' * 19 + ' 7', '%d' % int('1' * 18) + '(: :)', 'string-length("%s")' % (' ' * n)]
def q25(r):
    return ['//z/namespace-uri()', '//d/namespace-uri()', '//p:d/namespace-uri()', '//* ! name()', '//*/local-name()', 'string(/)', 'string-length(string(/))', '//z[lang("l3")]', '//*[lang("l12")]/name()', '//d[lang("l5-x")]', 'for $x in //* return lang("l2", $x)', '//@* ! name()', 'data(//i)', '//d ! string()', 'namespace-uri((//s)[%d])' % r.randint(1, 20), 'namespace-uri((//f)[last()])', 'root((//node())[%d])' % size(r), '//m/@* ! local-name()', 'name((//*)[%d])' % size(r)]
def q26(r):
    n = r.choice([9, 17, 33]); n1 = n - r.choice([0, 1])
    return ['(' * n + '1' + ')' * n1, '[' * n + '1' + ']' * n1, 'count(' * n + '1' + ')' * n1, 'a' + '[1' * n + ']' * n1, ', '.join(['1'] * n + ['']), ' + '.join(['1'] * n + [r.choice(['', '1'])]), '/'.join(['a'] * n + [r.choice(['', 'a'])]), 'if (1) then ' * n + '1' + ' else 1' * n1, 'map{' * n + '1' + ': 1}' * n1, 'concat(%s)' % ','.join(['1'] * n + [r.choice(['', '1'])]), 'let %s return 1' % ', '.join('$v%d := 1' % i for i in range(n)) + r.choice(['', ' 1']), '"' + 'a' * n + r.choice(['', '"']), '(:' * n + ':)' * n1 + '1', 'function(%s) { 1 }' % ', '.join('$a%d' % (i if r.random() < .95 else 1) for i in range(n)), '$' + 'x' * n + r.choice(['', ' x']), ' | '.join(['a'] * n) + r.choice(['', ' |']), '1' + ' to 1' * r.choice([1, 2]), '?' * r.choice([1, 2]) + 'a', ' '.join(['-'] * n) + r.choice([' 1', ''])]
def q20(r): return paths(r)[:24] + sets(r)[:13] + ['1 to %d' % size(r), '(//i, 1)', '//i/text()', '//@n']

EXPR = {'P11': q11, 'P12': q12, 'P13': q13, 'P14': q14, 'P15': q15, 'P16': q16, 'P17': q17, 'P18': q18, 'P19': q19, 'P22': q22, 'P23': q23, 'P24': q24, 'P26': q26}

def texts(r, full):
    out = []
    for _ in range(12 if full else 4):
        n = size(r); w = txt(r, n).replace('&', '').replace('<', ''); nm = ''.join(r.choice('abcXé-_.9') for _ in range(n)); nm = 'n' + nm
        out += ['<%s/>' % nm, '<%s>%s</%s>' % (nm, w, nm), '<%s>t</%s>' % (nm, nm[:-1]), '<a %s="%s">x</a>' % (nm, w), '<!--%s--><a/>' % w.replace('-', '='), '<a><![CDATA[%s]]></a>' % (w + ']' * r.randint(1, 70)), '<?%s %s?><a/>' % (nm, w), '<a b="%s">%s</a>' % ('&lt;' * n, '&#38;' * n),
                '<a>%s</a>' % ('&amp;' * (n // 2) + 'é&#x%s41;' % ('0' * n)), '<!DOCTYPE %s [%s]><a/>' % (nm, '<!x "%s">' % w.replace('"', '') * r.randint(1, 9)), '<!DOCTYPE a ' + '<x ' * 20 + '>' * r.choice([19, 20]) + '><a/>', '<a%sb%s=%s"1"%s>%s</a%s>' % (' ' * n, ' ' * n, '\n' * n, '\t' * n, ' ' * n, ' ' * n), '<a>%s</a>' % '<b/>'.join('&#%d;' % c for c in range(33, 33 + min(n, 90))), '\r\n' * n + '<a>%s</a>' % ('\r\n\r' * n)]
    return out + docs(r, full)

def nests(r, full):
    """documents whose end tags are right, or wrong somewhere"""
    out = []
    for _ in range(30 if full else 10):
        n = r.choice([9, 16, 17, 33, 65, 101]); ns = [r.choice(['a', 'b', 'a:b', 'ab']) for _ in range(n)]; ends = ns[::-1]
        if r.random() < .5: k = r.randrange(n); ends[k] = r.choice(['a', 'c', 'ba', ends[k]])
        if r.random() < .2: ends.pop(r.randrange(n))
        if r.random() < .1: ends.insert(r.randrange(n), 'a')
        out.append(''.join('<%s>%s' % (x, r.choice(['', 't', '<e/>'])) for x in ns) + ''.join('</%s>' % x for x in ends))
    return out

# ------------------------------------------------------------------ checks
def run(prop, rep, tier):
    full = tier == 'thorough'; r = random.Random('sizes %s %d' % (prop, rep.seed))
    L = 'large_inputs'
    if prop in ('P01', 'P02'): dom_checks.sax_run(rep, texts(r, full), L)
    elif prop == 'P03': dom_checks.dom_run(rep, texts(r, full) + nests(r, full), L, {'rt', 're', 'fc', 'nc', 'av'})
    elif prop == 'P04': dom_checks.dom_run(rep, texts(r, full), L, {'ts', 'ps', 'ix', 'db', 'reparse'}, load=False)
    elif prop == 'P25':
        ds = docs(r, full); dom_checks.dom_run(rep, ds, L, {'ln', 'sn', 'ns'}, load=False)
        ask(rep, [(x, 1, q25(r)) for x in ds], L)
    elif prop == 'P05':
        dom_checks.mut_run(rep, r, 150 if full else 24, ('state', 'roots', 'panic'), maxnodes=160, steps=8, docs=lambda: r.choice([attrs(r, r.randint(17, 36)), wide(r, r.randint(20, 70)), deep(r, r.randint(12, 24))]), names=['a1', 'a3', 'a16', 'a17', 'a19', 'a30', 'n', 'b'])
    elif prop == 'P10' or prop == 'P06':
        x = [wide(r, size(r, 130)) for _ in range(3)] + docs(r, False)[1:]
        ask(rep, [(x, c, sets(r)) for x in x if len(x) < 3800 for c in (1, r.randint(2, 90))], L)
        if prop == 'P06': ask(rep, [(x, c, paths(r)) for x in docs(r, full) for c in (1, r.randint(2, 250))], L)
    elif prop in ('P06', 'P07', 'P08', 'P09', 'P10', 'P20'):
        gs = []
        for x in docs(r, full) * (2 if full else 1):
            for c in (1, r.randint(2, 250)):
                qs = {'P20': q20}.get(prop, paths)(r)
                gs.append((x, c, qs))
        ask(rep, gs, L, full=prop == 'P20')
    elif prop in EXPR:
        x = wide(r, 60)
        ask(rep, [(x, 1, EXPR[prop](r)) for _ in range(50 if full else 6 if prop == 'P22' else 14)], L)
