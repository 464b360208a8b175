"""Documents to query and XPath expressions over them.  Expressions are built
as lists of tokens, so that they can be rendered with any legal spacing."""
import re

# ------------------------------------------------------------------ documents
EN = ['a', 'b', 'c', 'd', 'p:a', 'p:b', 'q:a', 'div', 'and', 'x-1']
AN = ['n', 'x', 'p:n', 'q:x', 'xml:lang', 'xsi:nil', 'id', 'div']
WORDS = ['1', '2', '3', '10', 'x', 'abc', 'b', 'é', '-1', '1.5', 'true', 'a b', '07', ' 3 ', 'NaN', '1e2', '0', 'xyz', '段落', 'en', '']
LANGS = ['en', 'en-US', 'EN', 'ja', 'e', '', 'en-', 'fr-CA']
NSU = ['u1', 'u2', 'http://e.x/', '']

def esc(s, q=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;')
    return s.replace('"', '&quot;') if q else s

class Doc:
    def __init__(self, rng, n=14, decl=False):
        self.rng, self.left = rng, n
        self.values = set()
        pro = ''
        if decl and rng.random() < .5: pro += '<?xml version="1.0"?>'
        if rng.random() < .2: pro += rng.choice(['<!--top-->', '<?pi top?>', '<?a x?>'])
        body = self.elem(0)
        epi = rng.choice(['<!--end-->', '<?pi end?>']) if rng.random() < .15 else ''
        self.xml = pro + body + epi
    def word(self):
        w = self.rng.choice(WORDS); self.values.add(w); return w
    def attrs(self, top):
        r, out, used = self.rng, [], set()
        if top and r.random() < .6: out.append(('xmlns:p', r.choice(NSU))); used.add('xmlns:p')
        if r.random() < .08: out.append(('xmlns', r.choice(NSU))); used.add('xmlns')
        if r.random() < .06: out.append(('xmlns:q', r.choice(NSU))); used.add('xmlns:q')
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            n = r.choice(AN[:4] if r.random() < .6 else AN)
            if n in used: continue
            used.add(n)
            v = r.choice(LANGS) if n == 'xml:lang' else r.choice(['true', 'true', 'false', '1']) if n == 'xsi:nil' else self.word()
            out.append((n, v))
        r.shuffle(out)
        return ''.join(' %s="%s"' % (n, esc(v, True)) for n, v in out)
    def elem(self, depth):
        r = self.rng; self.left -= 1
        n = r.choice(EN[:4]) if r.random() < .6 else r.choice(EN)
        s = '<' + n + self.attrs(depth == 0)
        kids = ''
        last = None
        for _ in range(r.randint(0 if depth else 1, 4)):
            if self.left <= 0: break
            k = r.random()
            if k < .55 and depth < 5: kids += self.elem(depth + 1); last = 'e'
            elif k < .82:
                if last == 't' and r.random() < .7: continue
                w = self.word()
                if last == 't' or (w and r.random() < .1): kids += '<![CDATA[%s]]>' % w
                else: kids += esc(w)
                self.left -= 1; last = 't'
            elif k < .91: kids += '<!--%s-->' % r.choice(['c', 'x y', '', '1']); self.left -= 1; last = 'c'
            else: kids += '<?%s %s?>' % (r.choice(['pi', 'a', 'php']), r.choice(['i', 'v="1"', '2'])); self.left -= 1; last = 'p'
        return s + ('/>' if not kids else '>' + kids + '</' + n + '>')

# ------------------------------------------------------------------ rendering
NAMEISH = re.compile(r'[\w.:-]|[^\x00-\x7f]')
GLUE = {('<', '<'), ('<', '='), ('>', '>'), ('>', '='), ('!', '='), ('/', '/'), ('|', '|'), ('(', ':'), (':', ':'), (':', '='), (':', ')'), ('=', '>'),
        ('.', '.'), ('"', '"'), ("'", "'"), ('*', ':'), (':', '*')}
def must_separate(a, b):
    x, y = a[-1], b[0]
    if (x, y) in GLUE: return True
    if NAMEISH.match(x) and NAMEISH.match(y) and a not in ('-', '..') and not (a == '.' and not y.isdigit() and y != '.') and a not in (':', '::', ':='):
        return b not in ('::', ':', ':=') and not (b[0] == '.' and a[0] not in '0123456789.' and not NAMEISH.match(a[-1]))
    return False
SP = [' ', '  ', '\n', '\t', ' \n ', '\r\n']
CM = ['(::)', '(: c :)', '(:(:n:):)', '(: a (: b :) c :)', '(:":)', "(: ' :)", '(: :: :)', '(:)(:):)']
def render(toks, rng=None, noise=0):
    out = ''
    for i, t in enumerate(toks):
        if i:
            need = must_separate(toks[i - 1], t)
            if noise and rng.random() < noise:
                s = ''
                for _ in range(rng.choice([1, 1, 2])):
                    s += rng.choice(SP) if rng.random() < .6 else rng.choice(CM)
                # "(" must not stand right before a comment-opening colon
                out += s
            elif need or (not noise and needs_style(toks[i - 1], t)): out += ' '
            elif noise and False: pass
        out += t
    return out
WORDOPS = {'and', 'or', 'div', 'idiv', 'mod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is', 'to', 'union', 'intersect', 'except', 'instance', 'of', 'treat', 'as',
           'castable', 'cast', 'in', 'return', 'satisfies', 'then', 'else', '=', '!=', '<', '<=', '>', '>=', '<<', '>>', '+', '-', '*', '||', '|', '!', '=>', ':='}
def needs_style(a, b): return a in WORDOPS or b in WORDOPS or a == ','

# ------------------------------------------------------------------ literals
INTS = ['0', '1', '2', '3', '4', '5', '7', '10', '12', '100', '9007199254740993', '2147483648', '4294967296', '3037000500', '9223372036854775807', '9223372036854775806', '4611686018427387904', '01', '9223372036854775808']
SMALL = INTS[:8]
DECS = ['0.5', '1.5', '2.5', '0.1', '1.0', '3.14', '.5', '2.', '0.0', '0.25', '100.75', '0.001']
DBLS = ['1e0', '1.5e0', '2.5E0', '1e3', '0e0', '1e-3', '1E6', '1e15', '1.5e-7', '1e21', '1e100', '3e2', '.5e1', '1.e1', '1e+2', '123456.789e0']
STRS = ['', 'a', 'b', 'ab', 'abc', 'abcabc', 'x', '1', '2', '10', ' 3 ', '1.5', '-1', 'true', 'false', 'é', 'ÉA', 'aß', '段落', '𝄞a', 'a b', "it's", 'say "x"', 'A-B', 'en', 'en-US', 'NaN', 'INF', '-INF', '1e2', '+1', '0', 'n', 'xml', '%', 'c', 'bc', '\t', 'a  b', '{}', '<>', '&']
VARS = ['x', 'y', 'z', 'x', 'v-1', 'n', 'for', 'in']
TYPES = ['xs:integer', 'xs:decimal', 'xs:double', 'xs:string', 'xs:boolean']
ATYPES = TYPES + ['xs:anyAtomicType', 'xs:numeric', 'xs:untypedAtomic', 'xs:anyURI', 'integer', 'string']
FORWARD = ['child', 'descendant', 'descendant-or-self', 'self', 'following', 'following-sibling', 'attribute']
REVERSE = ['parent', 'ancestor', 'ancestor-or-self', 'preceding', 'preceding-sibling']
AXES = FORWARD + REVERSE
def quote(s, rng):
    q = rng.choice('"\'')
    return q + s.replace(q, q + q) + q
def commas(parts):
    out = []
    for i, p in enumerate(parts):
        if i: out.append(',')
        out += p
    return out

class Gen:
    """kinds: nodes num int str bool seq map arr fn any"""
    def __init__(self, rng, values=('1', 'x'), wrong=.05, maxd=4, doc=True):
        self.rng, self.values, self.wrong, self.maxd, self.doc = rng, sorted(values) or ['1'], wrong, maxd, doc
        self.vars = []            # (name, kind)
        self.infocus = False
    def pick(self, table, d):
        fs = [f for w, f in table for _ in range(w)]
        return self.rng.choice(fs)(d)
    def par(self, t): return ['('] + t + [')']
    def sub(self, kind, d):
        """an operand: parenthesised unless primary"""
        t = self.ex(kind, d)
        return t if len(t) == 1 or self.primary(t) else self.par(t)
    def primary(self, t):
        # f ( ... ) / ( ... ) / $ x
        if len(t) == 2 and t[0] == '$': return True
        i = 0
        if t[0] == '(': i = 0
        elif len(t) > 1 and t[1] == '(' and re.match(r'[a-z]', t[0]) and t[0] not in ('if', 'function', 'text', 'node', 'comment', 'element', 'attribute', 'processing-instruction'): i = 1
        else: return False
        lv = 0
        for j in range(i, len(t)):
            if t[j] in ('(', '[', '{'): lv += 1
            elif t[j] in (')', ']', '}'):
                lv -= 1
                if lv == 0: return j == len(t) - 1
        return False
    def ex(self, kind, d):
        r = self.rng
        if r.random() < self.wrong: kind = r.choice(['nodes', 'num', 'str', 'bool', 'seq', 'map', 'arr', 'fn', 'int', 'empty'])
        vs = [n for n, k in self.vars if k == kind or k == 'any' and r.random() < .3]
        if vs and r.random() < .25: return ['$', r.choice(vs)]
        if d > 0 and r.random() < .06: return self.generic(kind, d)
        return getattr(self, kind)(d)
    def generic(self, kind, d):
        """forms of any kind"""
        r = self.rng; k = r.random()
        if k < .25: return ['if', '('] + self.ex('bool', d - 1) + [')', 'then'] + self.single(kind, d - 1) + ['else'] + self.single(kind, d - 1)
        if k < .5: return self.letx(kind, d)
        if k < .6: return self.par(self.ex(kind, d - 1)) + ['[', '1', ']']
        if k < .7: return self.callfn(kind, d)
        if k < .8: return ['['] + self.single(kind, d - 1) + [']', '(', '1', ')']
        if k < .9: return ['map', '{', quote('k', r), ':'] + self.single(kind, d - 1) + ['}', '?', 'k']
        return self.par(self.ex(kind, d - 1))
    def single(self, kind, d):
        t = self.ex(kind, d)
        return t
    def any(self, d): return self.ex(self.rng.choice(['nodes', 'num', 'str', 'bool', 'seq', 'int', 'nodes', 'map', 'arr']), d)
    def empty(self, d): return ['(', ')']
    def item(self, d): return self.ex(self.rng.choice(['num', 'str', 'bool', 'int', 'node1']), d)
    def node1(self, d): return self.par(self.nodes(d)) + ['[', '1', ']']

    # ---- nodes
    def test(self, ax='child'):
        r = self.rng; k = r.random()
        names = AN if ax == 'attribute' else EN
        n = r.choice(names[:4]) if r.random() < .7 else r.choice(EN + AN)
        if k < .42: return [n]
        if k < .60: return ['*']
        if k < .76: return ['node', '(', ')']
        if k < .81: return ['text', '(', ')']
        if k < .84: return ['comment', '(', ')']
        if k < .88: return ['processing-instruction', '('] + ([] if r.random() < .5 else [r.choice(['pi', 'a', '"pi"'])]) + [')']
        if k < .91: return [r.choice(['p:*', 'q:*', 'xml:*', 'z:*'])]
        if k < .94: return ['*:' + n.split(':')[-1]]
        w = r.choice(['element', 'attribute'])
        q = r.random()
        if q < .4: return [w, '(', ')']
        if q < .6: return [w, '(', '*', ')']
        if q < .8: return [w, '(', n, ')']
        return [w, '(', r.choice(['*', n]), ',', r.choice(['xs:untyped', 'xs:anyType', 'xs:untypedAtomic', 'xs:anyAtomicType', 'xs:string', 'anyType'])] + (['?'] if w == 'element' and r.random() < .4 else []) + [')']
    def pred(self, d):
        r = self.rng; k = r.random()
        old, self.infocus = self.infocus, True
        try:
            if k < .3: t = [r.choice(['1', '2', '3', '1', '2'])]
            elif k < .38: t = ['last', '(', ')']
            elif k < .44: t = ['last', '(', ')', '-', '1']
            elif k < .56: t = ['position', '(', ')', r.choice(['=', '<', '>', '!=', 'le', 'eq', 'gt']), r.choice(['1', '2', '3', 'last'])]
            elif k < .60: t = ['position', '(', ')', 'mod', '2', '=', r.choice('01')]
            elif k < .68: t = ['@', r.choice(AN[:4])]
            elif k < .75: t = self.nodes(0)
            elif k < .8: t = self.ex('num', d - 1)
            elif k < .83: t = self.ex('str', d - 1)
            elif k < .85: t = self.any(d - 1)
            else: t = self.ex('bool', d - 1)
            if t and t[-1] == 'last': t += ['(', ')']
        finally: self.infocus = old
        return ['['] + t + [']']
    def preds(self, d, p=.3):
        out = []
        while d > 0 and self.rng.random() < p:
            out += self.pred(d); p *= .6
        return out
    def step(self, d, p=.3):
        r = self.rng; k = r.random()
        if k < .35: t = self.test('child'); return t + self.preds(d, p)
        if k < .45: return ['@'] + self.test('attribute') + self.preds(d, p)
        if k < .50: return ['..'] + self.preds(d, p / 2)
        if k < .53: return ['.']
        ax = r.choice(AXES)
        return [ax, '::'] + self.test(ax) + self.preds(d, p)
    def path(self, d):
        r = self.rng; k = r.random()
        if k < .25: t = ['//'] + self.step(d)
        elif k < .38: t = ['/'] + self.step(d)
        elif k < .42: return ['/']
        elif k < .5 and d > 0: t = self.par(self.ex('nodes', d - 1)) + self.preds(d)
        elif k < .56 and [1 for n, kd in self.vars if kd == 'nodes']: t = ['$', r.choice([n for n, kd in self.vars if kd == 'nodes'])]
        else: t = self.step(d)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])): t += [r.choice(['/', '/', '/', '//'])] + self.step(d - 1)
        return t
    def nodes(self, d):
        r = self.rng; k = r.random()
        if d <= 0 or k < .68: return self.path(d)
        if k < .84: return self.sub('nodes', d - 1) + [r.choice(['|', 'union', 'intersect', 'except'])] + self.sub('nodes', d - 1)
        if k < .88: return [r.choice(['reverse', 'tail', 'head', 'data', 'root', 'one-or-more', 'zero-or-one']), '('] + self.ex('nodes', d - 1) + [')']
        if k < .92: return self.par(commas([self.single('nodes', d - 1), self.single('nodes', d - 1)]))
        if k < .95: return self.sub('nodes', d - 1) + ['!'] + self.sub('nodes', d - 1)
        if k < .97: return self.forx('nodes', d)
        return ['filter', '('] + self.single('nodes', d - 1) + [','] + self.inline(1, 'nodes', 'bool', d - 1) + [')']

    # ---- numbers
    def intlit(self):
        r = self.rng
        s = r.choice(SMALL) if r.random() < .8 else r.choice(INTS)
        return ['-', s] if r.random() < .12 else [s]
    def int(self, d):
        r = self.rng; k = r.random()
        if d <= 0 or k < .45:
            if self.infocus and r.random() < .2: return [r.choice(['position', 'last']), '(', ')']
            return self.intlit()
        if k < .75:
            t = self.sub('int', d - 1) + [r.choice(['+', '-', '*', 'idiv', 'mod'])] + self.sub('int', d - 1)
            return t
        if k < .85: return ['count', '('] + self.any(d - 1) + [')']
        if k < .92: return ['string-length', '('] + self.ex('str', d - 1) + [')']
        return self.sub('num', d - 1) + ['cast', 'as', 'xs:integer']
    def num(self, d):
        r = self.rng; k = r.random()
        if d <= 0 or k < .38:
            q = r.random()
            if q < .5: return self.intlit()
            t = [r.choice(DECS if q < .75 else DBLS)]
            return ['-'] + t if r.random() < .12 else t
        if k < .66: return self.sub('num', d - 1) + [r.choice(['+', '-', '*', 'div', 'idiv', 'mod'])] + self.sub('num', d - 1)
        if k < .72: return [r.choice('+-')] + self.sub('num', d - 1)
        if k < .80: return [r.choice(['abs', 'ceiling', 'floor', 'round']), '('] + self.ex('num', d - 1) + [')']
        if k < .86: return [r.choice(['sum', 'avg', 'max', 'min', 'count']), '('] + self.ex('nums', d - 1) + [')']
        if k < .91: return ['number', '('] + self.item(d - 1) + [')']
        if k < .95: return self.sub('item', d - 1) + ['cast', 'as', r.choice(TYPES[:3])]
        return self.ex('int', d - 1)
    def nums(self, d):
        r = self.rng; k = r.random()
        if k < .75: return self.par(commas([self.single('num', d - 1 if d > 0 else 0) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]))
        if k < .85: return ['1', 'to', r.choice(SMALL)]
        return self.ex('nodes', d - 1)

    # ---- strings
    def strlit(self):
        r = self.rng
        return [quote(r.choice(STRS) if r.random() < .75 else r.choice(self.values), r)]
    def str(self, d):
        r = self.rng; k = r.random()
        if d <= 0 or k < .4: return self.strlit()
        return self.strfn(d)
    def optstr(self, d):
        k = self.rng.random()
        if k < .06: return ['(', ')']
        if k < .18: return self.node1(d - 1)
        return self.single('str', d - 1)
    def strfn(self, d):
        r = self.rng; k = r.random()
        if k < .10: return ['concat', '('] + commas([self.single('item' if r.random() < .4 else 'str', d - 1) for _ in range(r.choice([2, 2, 3, 4]))]) + [')']
        if k < .20: return self.sub('str', d - 1) + ['||'] + self.sub('item', d - 1)
        if k < .30: return ['string-join', '('] + self.ex('strs', d - 1) + ([','] + self.single('str', d - 1) if r.random() < .8 else []) + [')']
        if k < .45: return ['substring', '('] + self.optstr(d) + [','] + self.posarg(d) + ([','] + self.posarg(d) if r.random() < .6 else []) + [')']
        if k < .55: return [r.choice(['upper-case', 'lower-case']), '('] + self.optstr(d) + [')']
        if k < .62: return ['translate', '('] + self.optstr(d) + [','] + self.single('str', d - 1) + [','] + self.single('str', d - 1) + [')']
        if k < .74: return [r.choice(['substring-before', 'substring-after']), '('] + self.optstr(d) + [','] + self.optstr(d) + [')']
        if k < .82: return ['string', '('] + self.item(d - 1) + [')']
        if k < .87: return [r.choice(['name', 'local-name', 'namespace-uri']), '('] + self.node1(d - 1) + [')']
        if k < .91: return ['codepoints-to-string', '('] + self.par(commas([[r.choice(['65', '97', '233', '119070', '27573', '0', '55296', '1114112', '48'])] for _ in range(r.randint(0, 3))])) + [')']
        if k < .96: return self.sub('item', d - 1) + ['cast', 'as', 'xs:string']
        return self.optstr(d)
    def posarg(self, d):
        r = self.rng; k = r.random()
        if k < .35: return [r.choice(['0', '1', '2', '3', '4', '7'])]
        if k < .5: return ['-', r.choice(['1', '2', '42', '1.5'])]
        if k < .72: return [r.choice(['1.5', '2.5', '0.5', '1.4999', '2.5e0', '0.0', '1e0', '3.7', '1e10', '9223372036854775807'])]
        if k < .82: return r.choice([['number', '(', '"x"', ')'], ['1', 'div', '0e0'], ['-', '1', 'div', '0e0'], ['number', '(', '"-INF"', ')'], ['number', '(', '"INF"', ')']])
        return self.single('num', d - 1)
    def strs(self, d):
        r = self.rng
        if r.random() < .3: return self.ex('nodes', d - 1)
        return self.par(commas([self.single('str' if r.random() < .7 else 'item', d - 1) for _ in range(r.choice([0, 1, 2, 3, 3, 4]))]))

    # ---- booleans
    def bool(self, d):
        r = self.rng; k = r.random()
        if d <= 0 or k < .12: return [r.choice(['true', 'false']), '(', ')']
        if k < .36: return self.compare(d)
        if k < .5: return self.sub('bool', d - 1) + [r.choice(['and', 'or'])] + self.sub('bool', d - 1)
        if k < .58: return [r.choice(['not', 'boolean', 'exists', 'empty']), '('] + self.any(d - 1) + [')']
        if k < .68: return self.quant(d)
        if k < .76: return [r.choice(['contains', 'starts-with', 'ends-with', 'codepoint-equal']), '('] + self.optstr(d) + [','] + self.optstr(d) + [')']
        if k < .84: return self.sub('any', d - 1) + ['instance', 'of'] + self.seqtype(1)
        if k < .91: return self.sub('item', d - 1) + ['castable', 'as', r.choice(TYPES)] + (['?'] if r.random() < .3 else [])
        if k < .96: return self.nodecmp(d)
        return self.ex('nodes', d - 1)
    def compare(self, d):
        r = self.rng
        op = r.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge', '=', '!=', '<', '<=', '>', '>='])
        k = r.choice(['num', 'num', 'str', 'str', 'bool', 'nodes', 'item'])
        k2 = k if r.random() < .8 else r.choice(['num', 'str', 'bool', 'nodes'])
        if op in ('=', '!=', '<', '<=', '>', '>=') and r.random() < .4:
            return self.seqof(k, d) + [op] + self.seqof(k2, d)
        return self.sub(k, d - 1) + [op] + self.sub(k2, d - 1)
    def seqof(self, kind, d):
        r = self.rng
        return self.par(commas([self.single(kind, d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]))
    def nodecmp(self, d):
        r = self.rng
        f = lambda: self.sub('node1' if r.random() < .7 else 'nodes', d - 1)
        return f() + [r.choice(['is', '<<', '>>'])] + f()

    # ---- binding forms
    def newvar(self): return self.rng.choice(VARS)
    def binds(self, word, kinds, d):
        """returns tokens and restores nothing; caller pops vars"""
        r = self.rng; out = []; n = r.choice([1, 1, 1, 2, 3]); op = ':=' if word == 'let' else 'in'
        for i in range(n):
            if i: out.append(',')
            v, k = self.newvar(), r.choice(kinds)
            if word == 'let': e = self.single(k, d - 1); kind = k
            else:
                kind = k
                e = self.ex('nodes', d - 1) if k == 'nodes' else self.seqof(k, d - 1) if r.random() < .7 else self.single(k, d - 1)
                if ',' in e and not self.primary(e): e = self.par(e)
            out += ['$', v, op] + e
            self.vars.append((v, kind))
        return out, n
    def popvars(self, n): del self.vars[len(self.vars) - n:]
    def forx(self, kind, d):
        b, n = self.binds('for', ['int', 'nodes', 'str', 'num'], d)
        t = ['for'] + b + ['return'] + self.single(kind, d - 1)
        self.popvars(n); return t
    def letx(self, kind, d):
        b, n = self.binds('let', ['int', 'nodes', 'str', 'num', 'seq', 'any', 'bool', 'map', 'arr'], d)
        t = ['let'] + b + ['return'] + self.single(kind, d - 1)
        self.popvars(n); return t
    def quant(self, d):
        b, n = self.binds('some', ['int', 'nodes', 'str', 'num'], d)
        t = [self.rng.choice(['some', 'every'])] + b + ['satisfies'] + self.single('bool', d - 1)
        self.popvars(n); return t

    # ---- sequences
    def seq(self, d):
        r = self.rng; k = r.random()
        if d <= 0 or k < .3: return self.par(commas([self.single(r.choice(['int', 'str', 'num', 'bool', 'nodes'] if self.doc else ['int', 'str', 'num', 'bool']), d - 1 if d > 0 else 0) for _ in range(r.choice([0, 1, 2, 3, 3, 4]))]))
        if k < .4: return self.intlit() + ['to'] + self.intlit()
        if k < .55: return self.forx(r.choice(['int', 'seq', 'str', 'nodes', 'num']), d)
        if k < .62: return self.sub('seq', d - 1) + ['!'] + self.sub('item', d - 1)
        if k < .70: return self.par(self.ex('seq', d - 1)) + self.pred(d - 1)
        if k < .76: return ['for-each', '('] + self.single('seq', d - 1) + [','] + self.inline(1, 'any', 'any', d - 1) + [')']
        return self.seqfn(d)
    def seqfn(self, d):
        r = self.rng; k = r.random(); s = lambda: self.single('seq', d - 1)
        if k < .35: return [r.choice(['reverse', 'tail', 'head', 'one-or-more', 'zero-or-one', 'exactly-one', 'count', 'empty', 'exists']), '('] + s() + [')']
        if k < .5: return ['insert-before', '('] + s() + [','] + self.intlit() + [','] + s() + [')']
        if k < .62: return ['remove', '('] + s() + [','] + self.intlit() + [')']
        if k < .82: return ['subsequence', '('] + s() + [','] + self.posarg(d) + ([','] + self.posarg(d) if r.random() < .6 else []) + [')']
        if k < .95: return ['index-of', '('] + s() + [','] + self.single('item', d - 1) + [')']
        return ['string-to-codepoints', '('] + self.optstr(d) + [')']

    # ---- maps, arrays, functions
    def key(self, d):
        r = self.rng; k = r.random()
        if k < .5: return [quote(r.choice(['k', 'a', 'b', '1', 'x y', '']), r)]
        if k < .8: return [r.choice(['1', '2', '3', '1.0', '1e0', '2.5'])]
        if k < .85: return [r.choice(['true', 'false']), '(', ')']
        if k < .9: return self.node1(0)
        return self.single('item', d - 1)
    def map(self, d):
        r = self.rng; out = []
        if r.random() < .12 and d > 0: return self.sub('map', d - 1)
        for i in range(r.choice([0, 1, 2, 2, 3])):
            if i: out.append(',')
            out += self.sub1(self.key(d)) + [':'] + self.member(d)
        return ['map', '{'] + out + ['}']
    def sub1(self, t):
        # a map key followed by ":" must not end in a name
        return t if t[-1] in (')', ']') or t[-1][0] in '"\'0123456789' else self.par(t)
    def member(self, d):
        return self.single(self.rng.choice(['int', 'str', 'num', 'seq', 'any', 'bool', 'arr', 'map', 'nodes']), d - 1)
    def arr(self, d):
        r = self.rng
        if r.random() < .25: return ['array', '{'] + (self.ex('seq', d - 1) if r.random() < .9 else []) + ['}']
        return ['['] + commas([self.member(d - 1) for _ in range(r.choice([0, 1, 2, 3, 3]))]) + [']']
    def lookup(self, d):
        r = self.rng; k = r.random()
        m = r.random() < .5
        base = self.sub('map' if m else 'arr', d - 1) if r.random() < .8 else self.par(commas([self.single('map' if m else 'arr', d - 1) for _ in range(2)]))
        if base[0] == 'array' or base[0] == 'map' or base[0] == '[': pass
        if k < .35:
            key = [r.choice(['k', 'a', 'b', 'x'])] if m else [r.choice(['1', '2', '3', '0', '4'])]
            return base + ['?'] + key
        if k < .45: return base + ['?', '*']
        if k < .6: return base + ['?', '('] + commas([self.key(d) if m else self.single('int', d - 1) for _ in range(r.choice([1, 1, 2, 0]))]) + [')']
        if k < .75: return base + ['('] + (self.key(d) if m else self.single('int', 0)) + [')']
        if m: 
            f = r.choice(['map:get', 'map:contains', 'map:size', 'map:keys'])
            return [f, '('] + self.single('map', d - 1) + ([','] + self.key(d) if f in ('map:get', 'map:contains') else []) + [')']
        f = r.choice(['array:get', 'array:size', 'array:flatten', 'array:flatten'])
        return [f, '('] + self.single('arr', d - 1) + ([','] + self.single('int', 0) if f == 'array:get' else []) + [')']
    def itemtype(self, d):
        r = self.rng; k = r.random()
        if k < .5: return [r.choice(ATYPES)]
        if k < .58: return ['item', '(', ')']
        if k < .72: return r.choice([['node', '(', ')'], ['element', '(', ')'], ['attribute', '(', ')'], ['text', '(', ')'], ['element', '(', 'a', ')'], ['attribute', '(', 'n', ')'], ['comment', '(', ')'], ['processing-instruction', '(', ')'],
                                     ['element', '(', '*', ',', 'xs:untyped', ')'], ['processing-instruction', '(', 'pi', ')']])
        if d <= 0: return ['function', '(', '*', ')']
        if k < .8: return ['map', '(', '*', ')'] if r.random() < .4 else ['map', '(', r.choice(ATYPES), ','] + self.seqtype(d - 1) + [')']
        if k < .88: return ['array', '(', '*', ')'] if r.random() < .4 else ['array', '('] + self.seqtype(d - 1) + [')']
        if k < .92: return ['function', '(', '*', ')']
        if k < .97: return ['function', '('] + commas([self.seqtype(0) for _ in range(r.choice([0, 1, 1, 2]))]) + [')', 'as'] + self.seqtype(0)
        return ['('] + self.itemtype(d - 1) + [')']
    def seqtype(self, d):
        r = self.rng
        if r.random() < .06: return ['empty-sequence', '(', ')']
        t = self.itemtype(d)
        return t + ([] if r.random() < .5 else [r.choice('?*+')])
    def inline(self, ar, pk, rk, d):
        r = self.rng; out = []; old = list(self.vars)
        names = []
        for i in range(ar):
            if i: out.append(',')
            v = self.newvar()
            out += ['$', v] + (['as'] + self.seqtype(0) if r.random() < .15 else [])
            self.vars.append((v, pk))
        ret = ['as'] + self.seqtype(0) if r.random() < .1 else []
        body = self.ex(rk, d)
        self.vars = old
        return ['function', '('] + out + [')'] + ret + ['{'] + body + ['}']
    UN = ['string-length', 'upper-case', 'lower-case', 'abs', 'round', 'not', 'count', 'reverse', 'string', 'number', 'name', 'head', 'tail', 'sum', 'max', 'data', 'boolean', 'exists', 'floor', 'true', 'string-to-codepoints', 'array:size', 'map:size', 'root', 'string-join', 'empty', 'nilled']
    BI = ['concat', 'contains', 'substring', 'insert-before', 'starts-with', 'index-of', 'remove', 'compare', 'string-join', 'subsequence', 'map:get', 'array:get', 'substring-before', 'for-each', 'sum', 'codepoint-equal', 'filter', 'translate', 'lang']
    def fn(self, d):
        r = self.rng; k = r.random()
        if k < .25: return [r.choice(self.UN), '#', '1']
        if k < .35: return [r.choice(self.BI), '#', '2']
        if k < .4: return [r.choice(['true', 'false', 'position', 'last', 'name', 'string', 'concat', 'substring', 'insert-before', 'root', 'fn:count']), '#', r.choice('0123')]
        if k < .6: return self.partial(d)
        if k < .9 or d <= 0: return self.inline(r.choice([0, 1, 1, 1, 2, 2]), r.choice(['int', 'any', 'str']), r.choice(['int', 'str', 'any', 'bool', 'seq']), max(0, d - 1))
        return self.sub(r.choice(['map', 'arr']), d - 1)
    def partial(self, d):
        r = self.rng
        f, kinds = r.choice([('concat', ['str', 'str']), ('concat', ['str', 'str', 'str']), ('substring', ['str', 'int']), ('substring', ['str', 'int', 'int']), ('contains', ['str', 'str']),
                             ('insert-before', ['seq', 'int', 'seq']), ('remove', ['seq', 'int']), ('index-of', ['seq', 'item']), ('string-join', ['strs', 'str']), ('subsequence', ['seq', 'int']),
                             ('upper-case', ['str']), ('abs', ['num']), ('translate', ['str', 'str', 'str']), ('substring-after', ['str', 'str']), ('count', ['seq']), ('compare', ['str', 'str'])])
        holes = [r.random() < .5 for _ in kinds]
        if not any(holes): holes[r.randrange(len(holes))] = True
        self.lastholes = [k for k, h in zip(kinds, holes) if h]
        return [f, '('] + commas([['?'] if h else self.single(k, max(0, d - 1)) for k, h in zip(kinds, holes)]) + [')']
    def callfn(self, kind, d):
        r = self.rng; k = r.random()
        if k < .22:
            p = self.partial(d); hs = self.lastholes
            return p + ['('] + commas([self.single(h, d - 1) for h in hs]) + [')']
        if k < .34:
            f = r.choice(self.UN); return [f, '#', '1', '('] + self.single('any', d - 1) + [')']
        if k < .42:
            f = r.choice(['concat', 'contains', 'starts-with', 'compare', 'substring-before']); return [f, '#', '2', '('] + commas([self.single('str', d - 1), self.single('str', d - 1)]) + [')']
        if k < .64:
            n = r.choice([0, 1, 1, 2, 2, 3]); ks = r.choice(['int', 'str', 'any', 'nodes', 'seq'])
            t = self.inline(n, ks, kind, d - 1)
            m = n if r.random() < .93 else r.choice([0, 1, 2, 3])
            return self.par(t) + ['('] + commas([self.single(ks, d - 1) for _ in range(m)]) + [')'] if r.random() < .5 else t + ['('] + commas([self.single(ks, d - 1) for _ in range(m)]) + [')']
        if k < .76:
            v = self.newvar(); ks = r.choice(['int', 'str', 'any'])
            f = self.inline(1, ks, kind, d - 1)
            self.vars.append((v, 'fnx')); b = ['$', v, '('] + self.single(ks, d - 1) + [')']
            t = ['let', '$', v, ':='] + f + ['return'] + (b if r.random() < .6 else self.single(ks, d - 1) + ['=>', '$', v, '(', ')'])
            self.popvars(1); return t
        if k < .9: return self.arrow(d)
        if k < .95: return self.sub('fn', d - 1) + ['('] + commas([self.single('any', d - 1) for _ in range(r.choice([0, 1, 1, 2]))]) + [')']
        return [r.choice(['for-each', 'filter']), '('] + self.single('seq', d - 1) + [','] + self.ex('fn', d - 1) + [')']
    def arrow(self, d):
        r = self.rng; t = self.sub(r.choice(['str', 'seq', 'num', 'any', 'nodes']), d - 1)
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < .6: t = t + ['=>', r.choice(self.UN), '(', ')']
            elif k < .9:
                f, ks = r.choice([('concat', ['str']), ('substring', ['int']), ('contains', ['str']), ('remove', ['int']), ('string-join', ['str']), ('insert-before', ['int', 'seq']), ('subsequence', ['int', 'int']), ('index-of', ['item']), ('substring-after', ['str'])])
                t = t + ['=>', f, '('] + commas([self.single(x, d - 2) for x in ks]) + [')']
            else: t = t + ['=>', 'fn:' + r.choice(self.UN[:5]), '(', ')']
        return t
