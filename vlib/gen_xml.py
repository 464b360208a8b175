"""Documents: random well-formed ones, broken ones, exhaustive small texts."""
import itertools, os, re

NAMES = ['a', 'b', 'c', 'item', 'x-1', 'p:a', 'p:b', 'q:a', 'ab', 'A', '_u', 'a.b', 'é', '段落', 'aé', ':c', 'xml-x', 'xmlns', 'div', 'or']
ANAMES = ['a', 'b', 'id', 'x', 'p:a', 'xml:lang', 'xmlns', 'xmlns:p', 'é', '属性', 'n-1']
TEXTCH = list('abcXYZ019 \t.,;:-_=/?!#()[]{}"\'>]') + ['é', 'ß', '段', '𝄞', '\u00a0', '\u3000', '\u2028', '\ufffd']
NLS = ['\n', '\r\n', '\r', '\n\r', '\r\r\n']
PREDEF = ['&amp;', '&lt;', '&gt;', '&quot;', '&apos;']
CPS = [0x26, 0x3c, 0x3e, 0x22, 0x27, 0x3b, 0x23, 0x78, 0x41, 0x20, 0x9, 0xa, 0xd, 0xe9, 0x6bb5, 0x1d11e, 0x10ffff, 0xd7ff, 0xe000, 0xfffd, 0x80, 0x7f]
BADCPS = [0x110000, 0xd800, 0xdfff, 0xffffffff, 0x100000000, 0x1000000]
SPACES = [' ', '  ', '\t', '\n', ' \n ', '\r\n', '\r']

def ref(rng):
    k = rng.random()
    if k < .45: return rng.choice(PREDEF)
    if k < .9:
        c = rng.choice(CPS) if rng.random() < .9 else rng.choice(BADCPS)
        if rng.random() < .5: return '&#%d;' % c if rng.random() < .8 else '&#%08d;' % c
        h = '%x' % c if rng.random() < .5 else '%X' % c
        return '&#x%s;' % (h if rng.random() < .8 else h.zfill(rng.randint(1, 9)))
    return '&' + rng.choice(['foo', 'nbsp', 'am', 'ampx', 'l', 'gtx', 'copy', 'x41', 'é']) + ';'

AFTERREF = ['amp;', 'lt;', '#65;', '#x41;', ';', 'gt;', '#', 'x', 'quot;', '38;']

def text(rng, n=6, refs=.3, lt=False, quote=None, nl=.05):
    out = []
    for _ in range(rng.randint(0, n)):
        k = rng.random()
        if k < refs:
            out.append(ref(rng))
            if rng.random() < .4: out.append(rng.choice(AFTERREF))
        elif k < refs + nl: out.append(rng.choice(NLS))
        else:
            c = rng.choice(TEXTCH)
            if quote and c == quote: continue
            out.append(c)
    s = ''.join(out)
    return s

def raw(rng, n, forbid, extra=()):
    """arbitrary characters not containing (nor completing) forbid"""
    out = ''
    pool = TEXTCH + ['<', '&', '&amp;', '&#65;', '-', ']', '?', '>', '>', '[', '<!', '/>', '&lt;'] + list(extra) + NLS
    for _ in range(rng.randint(0, n)):
        out += rng.choice(pool)
    while forbid in out:
        out = out.replace(forbid, '')
    # a trailing prefix of the delimiter could join with it
    return out

def attr(rng, names=ANAMES, refs=.3, used=()):
    n = rng.choice(names)
    q = rng.choice('"\'')
    v = text(rng, 5, refs, quote=q)
    if rng.random() < .15: v += {'"': "'", "'": '"'}[q]
    sp = lambda p: rng.choice(SPACES) if rng.random() < p else ''
    return n, '%s=%s' % (n + sp(.1), sp(.1) + q + v + q)

def comment(rng):
    c = raw(rng, 5, '-->')
    while ('-->' in c + '-->' and (c + '-->').index('-->') != len(c)): c = c[:-1]
    return '<!--' + c + '-->'

def cdata(rng):
    c = raw(rng, 6, ']]>')
    while (c + ']]>').index(']]>') != len(c): c = c[:-1]
    return '<![CDATA[' + c + ']]>'

def pi(rng):
    t = rng.choice(['xml', 'xslt', 'p', 'é', 'php', 'xml-stylesheet', 'a:b'])
    i = raw(rng, 5, '?>')
    while (i + '?>').index('?>') != len(i): i = i[:-1]
    if not i.strip(' \t\r\n') and rng.random() < .5: return '<?%s?>' % t
    return '<?' + t + rng.choice(SPACES) + i + '?>'

def directive(rng):
    return rng.choice(['<!DOCTYPE a>', '<!DOCTYPE a [ <!ENTITY b "c"> ]>', '<!DOCTYPE a SYSTEM "x">', '<!ELEMENT a (b|c)>',
                       '<!X <Y <Z>> &amp; >', '<!DOCTYPE é [<!-- c --><!ATTLIST a b CDATA #IMPLIED>]>'])

class Cfg:
    def __init__(self, **k):
        self.depth = 3; self.width = 4; self.names = NAMES; self.anames = ANAMES; self.refs = .3
        self.misc = .35; self.attrs = 3; self.maxnodes = 40; self.tlen = 6; self.dupattrs = False
        self.__dict__.update(k)

def element(rng, cfg, depth, budget):
    n = rng.choice(cfg.names)
    at = []; used = set()
    for _ in range(rng.randint(0, cfg.attrs) if rng.random() < .6 else 0):
        an, a = attr(rng, cfg.anames, cfg.refs)
        if an in used and not cfg.dupattrs: continue
        used.add(an)
        at.append(rng.choice(SPACES) + a)
    budget[0] -= 1 + len(at)
    sp = rng.choice(SPACES) if rng.random() < .1 else ''
    head = '<' + n + ''.join(at) + sp
    if depth == 0 or budget[0] <= 0 or rng.random() < .2:
        if rng.random() < .6: return head + '/>'
        return head + '></' + n + sp + '>'
    return head + '>' + content(rng, cfg, depth - 1, budget) + '</' + n + (rng.choice(SPACES) if rng.random() < .1 else '') + '>'

def content(rng, cfg, depth, budget):
    out = []
    for _ in range(rng.randint(0, cfg.width)):
        if budget[0] <= 0: break
        k = rng.random()
        if k < cfg.misc:
            budget[0] -= 1
            out.append(rng.choice([comment, cdata, pi, comment, cdata, directive])(rng))
        elif k < cfg.misc + .3:
            budget[0] -= 1
            out.append(text(rng, cfg.tlen, cfg.refs))
        else:
            out.append(element(rng, cfg, depth, budget))
    return ''.join(out)

def chain(rng, cfg):
    """a long chain of elements with little beside it"""
    def bit():
        if rng.random() < .75: return ''
        return rng.choice([comment, cdata, pi, lambda r: text(r, 2, cfg.refs), lambda r: element(r, cfg, 1, [2])])(rng)
    s = bit()
    for _ in range(rng.randint(4, 24)):
        n = rng.choice(cfg.names)
        s = bit() + '<' + n + (rng.choice(SPACES) + attr(rng, cfg.anames, cfg.refs)[1] if rng.random() < .2 else '') + '>' + s + '</' + n + '>' + bit()
    n = rng.choice(cfg.names)
    return '<%s>%s</%s>' % (n, s, n)

def document(rng, cfg=None):
    cfg = cfg or Cfg()
    if cfg.maxnodes > 12 and rng.random() < .08: return chain(rng, cfg)
    budget = [rng.randint(3, cfg.maxnodes)]
    s = ''
    if rng.random() < .3: s += rng.choice(['<?xml version="1.0"?>', "<?xml version='1.0' encoding=\"UTF-8\" ?>\n", '<?xml   a?>'])
    if rng.random() < .15: s += directive(rng) + rng.choice(['', '\n'])
    if rng.random() < .2: s += comment(rng)
    if rng.random() < .1: s += pi(rng)
    s += element(rng, cfg, cfg.depth, budget)
    if rng.random() < .15: s += rng.choice(['\n', comment(rng), pi(rng)])
    if rng.random() < .05: s += element(rng, cfg, 1, budget) + text(rng, 3, .2)
    return s

BREAK = list('<>/="\'!-?[]&;#xab: \n') + ['</', '/>', '<!--', '-->', '<![CDATA[', ']]>', '<?', '?>', '</a>', '<a', '<!', 'é', '"x"', '<a>', '&lt;', ' b="1"', '=']
def broken(rng, s):
    for _ in range(rng.randint(1, 3)):
        k = rng.random(); i = rng.randint(0, len(s))
        if k < .35: s = s[:i] + rng.choice(BREAK) + s[i:]
        elif k < .7:
            s = s[:i] + s[i + rng.choice([1, 1, 1, 2, 3, 5]):]
        elif k < .8: s = s[:i]
        elif k < .9:
            j = rng.randint(0, len(s)); s = s[:i] + s[j:j + rng.randint(1, 6)] + s[i:]
        elif s:
            i = min(i, len(s) - 1); s = s[:i] + rng.choice(BREAK) + s[i + 1:]
    return s

TAG = re.compile(r'</?[^<>!?][^<>]*>')
def retag(rng, s):
    """break the nesting: drop, duplicate, swap or rename whole tags"""
    ms = list(TAG.finditer(s))
    if not ms: return s
    m = rng.choice(ms); k = rng.random()
    if k < .3: return s[:m.start()] + s[m.end():]
    if k < .45: return s[:m.end()] + m.group() + s[m.end():]
    if k < .7:
        t = m.group()
        nm = re.match(r'</?([^\s/>]+)', t)
        if not nm: return s
        new = rng.choice([nm.group(1) + 'x', nm.group(1)[:-1] or 'z', nm.group(1).upper(), nm.group(1).split(':')[-1], 'p:' + nm.group(1)])
        return s[:m.start()] + t.replace(nm.group(1), new, 1) + s[m.end():]
    if k < .85:
        m2 = rng.choice(ms)
        if m2.start() < m.start(): m, m2 = m2, m
        if m.end() > m2.start(): return s
        return s[:m.start()] + m2.group() + s[m.end():m2.start()] + m.group() + s[m2.end():]
    return s + rng.choice(['</a>', '<a>', '</' + rng.choice(NAMES) + '>', 'x', '<b/>'])

def small_texts(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)

def name_boundaries():
    """characters at (and just beyond) the edges of the name character ranges"""
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'NameTables.tla')
    out = set(range(33, 0x180))
    for a, b in re.findall(r'<<(\d+),(\d+)>>', open(p).read()):
        for x in (int(a) - 1, int(a), int(b), int(b) + 1): out.add(x)
    out |= {0x200b, 0x200c, 0x2070, 0x3000, 0xffff, 0xfffe, 0xfdd0, 0xe000, 0xd7ff, 0x10000, 0x1d11e, 0x10ffff}
    return sorted(c for c in out if not 0xd800 <= c < 0xe000)
