"""P06-P26: XPath.  Queries are generated, asked of the real code, and TLC
evaluates the same queries on the same documents with the specification."""
import itertools, json, os, random, re
from . import core, dom_checks, gen_xml
from .gen_xp import *

# ------------------------------------------------------------------ running
def small(s, n=240): return s if len(s) <= n else s[:n] + '...'
def show(q):
    if q.get('panic'): return 'panic'
    return [('node %d' % i['n'] if i['n'] != -1 else core.uncps(i['s'])) for i in q['items']][:12] if q['ok'] else 'error' + (' (%s)' % q['c'] if q.get('c') in ('syntax', 'internal') else '')

FULLKEYS = ('ts', 'nsok', 'ns', 'fn', 'enok', 'en', 'ok2', 'items2')
def ask(rep, groups, label, full=False, keyof=None, budget=10, decided=True, cls=False):
    """groups: (document, context number, queries).  decided=False: only ends
    other than a value or an error count (totality).  cls: whether an error is one
    of syntax is judged too."""
    cmd = 'xpf' if full else 'xp'
    obs = core.run([core.request(cmd, x, c, *qs) for x, c, qs in groups], budget)
    # a group whose process died or hung is asked again query by query
    again = [(gi, qi) for gi, o in enumerate(obs) if core.bad(o) for qi in range(len(groups[gi][2]))]
    if again:
        sub = core.run([core.request(cmd, groups[g][0], groups[g][1], groups[g][2][q]) for g, q in again[:2000]], budget)
        for (g, q), o in zip(again, sub):
            if core.bad(o):
                x, c, qs = groups[g]
                rep.violation('%r at node %d of %r: the process %s' % (small(qs[q]), c, small(x), 'did not answer' if o.get('hang') else 'died'),
                              {'request': [cmd, x, c, qs[q]], 'observed': o}, keyof and keyof(x, c, qs[q]))
    ses, idx, nq = [], [], 0
    for gi, o in enumerate(obs):
        if core.bad(o) or o.get('skipped'): continue
        x, c, qs = groups[gi]
        if 'res' not in o:
            rep.violation('document %r was rejected' % small(x), {'request': ['dom', x], 'observed': o}); continue
        l = []
        for q, r in zip(qs, o['res']):
            if r.get('panic'):
                rep.violation('%r at node %d of %r: panic' % (small(q), c, small(x)), {'request': [cmd, x, c, q], 'observed': r}, keyof and keyof(x, c, q))
                continue
            e = {'x': core.cps(q), 'ok': r['ok'], 'items': r['items'], 'c': r['c']}
            if full: e.update({k: r[k] for k in FULLKEYS})
            l.append((q, e))
        if not l: continue
        s = {'nodes': o['nodes'], 'ctx': (c - 1) % len(o['nodes']) + 1, 'qs': [e for q, e in l], 'full': full, 'cls': cls}
        if full: s['same'] = o['same']
        ses.append(s); idx.append((x, c, [q for q, e in l], o)); nq += len(l)
    if not decided:
        rep.add(**{label: nq}); return
    oom = 0
    # sessions are validated in portions, so that one TLC run stays small
    P = 3000
    for k in range(0, len(ses), P):
        r = core.validate('TraceXp', ses[k:k + P])
        for kind, s, l, what in r.marks:
            x, c, qs, o = idx[k + s - 1]
            if kind == 'OOM':
                oom += 1
                if os.environ.get('SHOW_OPEN'): print('OPEN', repr(small(qs[l], 300)), show(ses[k + s - 1]['qs'][l]))
                continue
            if what.strip('"') == 'document':
                rep.violation('document %r: %s' % (small(x), 'queries changed it' if l else 'the nodes do not form a tree'),
                              {'request': [cmd, x, c] + qs, 'observed': o}); continue
            q, e = qs[l], ses[k + s - 1]['qs'][l]
            rep.violation('%r at node %d of %r: specified %s, observed %s' % (small(q), ses[k + s - 1]['ctx'], small(x), spec_text(what), show(e)),
                          {'request': [cmd, x, c, q], 'observed': e, 'specified': core.readable(what)}, keyof and keyof(x, c, q))
        rep.add(states=r.distinct, transitions=max(0, r.generated - len(ses[k:k + P])))
    rep.add(traces_validated_against_impl=len(ses), queries=nq, queries_left_open=oom,
            queries_with_a_value=sum(1 for s in ses for q in s['qs'] if q['ok']), **{label: nq})
    for s, (x, c, qs, o) in list(zip(ses, idx))[:: max(1, len(ses) // 2)][:2]:
        rep.sample({label: small(qs[0], 160), 'document': small(x, 160), 'node': s['ctx'], 'result': str(show(s['qs'][0]))[:120]})

def spec_text(w):
    w = core.readable(w)
    ns = re.findall(r'n \|-> (-?\d+), s \|-> <<[\d, ]*>>(?:=("(?:[^"\\]|\\.)*"))?', w)
    if w.strip('"') in ('err', 'oom'): return 'error'
    if w.startswith('"'): return w
    if w.startswith('<<') and (ns or w.replace(' ', '') == '<<>>' or w == '<<'):
        return str([('node ' + a if a != '-1' else json.loads(b) if b else '') for a, b in ns])
    return w[:300]

def pack(x, qs, ctxs=(1,), size=60):
    """groups asking all queries from all contexts of document x"""
    return [(x, c, qs[i:i + size]) for c in ctxs for i in range(0, len(qs), size)]

def R(t, rng=None, noise=0): return render(t, rng, noise)

def randoms(rng, n, make, docsize=(3, 14), per=10, decl=False, noise=0, ctx=.6, wrong=.05, docs=True):
    """n groups of `per` queries on random documents; make(gen) -> tokens"""
    out = []
    for _ in range(n):
        d = Doc(rng, rng.randint(*docsize), decl) if docs else Doc(rng, 2)
        qs = []
        while len(qs) < per:
            g = Gen(rng, d.values, wrong)
            t = make(g)
            q = render(t, rng, noise)
            if len(q) < 700: qs.append(q)
        out.append((d.xml, rng.randint(1, 40) if rng.random() < ctx else 1, qs))
    return out

def forests(kids, n):
    """all element trees with exactly n nodes below the root, as XML text"""
    def seqs(n):
        if n == 0: yield ''; return
        for k in range(1, n + 1):
            for t in tree(k):
                for r in seqs(n - k): yield t + r
    def tree(n):
        for k in kids:
            if k.startswith('<E'):
                nm = k[2:]
                for s in seqs(n - 1): yield '<%s>%s</%s>' % (nm, s, nm) if s else '<%s/>' % nm
            elif n == 1: yield k
            elif k.startswith('@'): pass
    return list(seqs(n))

# ------------------------------------------------------------------ laws of the specification
LAWDOC = '<r n="1" xml:lang="en"><a n="2">x<b n="3"/><!--c--></a><?i p?><b>1<a n="2">y</a></b><a/></r>'
def laws(rep, tier, rng, prop):
    """MCLaws: the laws of the property hold in the specification for the chosen
    instances of their parameters; both sides of each are asked of the real code."""
    rng = random.Random('laws %s %d' % (prop, rep.seed))
    n = 700 if tier == 'thorough' else 30
    docs = [(LAWDOC, c) for c in (1, 4)]
    if tier == 'thorough': docs += [(Doc(rng, rng.randint(5, 9)).xml, 3)]
    obs = core.run([core.request('xp', d, c, '1') for d, c in docs])
    ses = [{'nodes': o['nodes'], 'ctx': (c - 1) % len(o['nodes']) + 1, 'p': prop, 'n': n, 'off': rng.randint(0, 1 << 20)} for (d, c), o in zip(docs, obs) if not core.bad(o) and 'res' in o]
    if len(ses) < len(docs): rep.violation('the documents %r were not answered' % docs, {'observed': obs}); return
    r = core.validate('MCLaws', ses)
    qs = {i: [] for i in range(len(ses))}
    for kind, s, l, w in r.marks:
        m = json.loads(json.loads(w))
        rep.add(law_instances=1, **({'law_instances_left_open': 1} if m['v'] == 'open' else {}))
        qs[s - 1] += [core.uncps(m['l']), core.uncps(m['r'])]
    rep.add(states=r.distinct, transitions=r.generated - r.distinct, laws=len({l for k, s, l, w in r.marks}))
    ask(rep, [z for i, (d, c) in enumerate(docs) for z in pack(d, sorted(set(qs[i])), [c], 80)], 'sides_of_laws')

# ------------------------------------------------------------------ P06
def p06(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P06')
    doc = '<r x="0"><a n="1" m="2"><b/>t<a><b n="3"/><a/></a></a><!--c--><a><?p i?><b><a n="4"/></b></a></r>'
    N = 22
    tests = {'attribute': ['node()']}
    qs = []
    for a1, a2 in itertools.product(AXES, AXES): qs.append('%s::node()/%s::node()' % (a1, a2))
    qs += ['//%s::*/..' % a for a in AXES] + ['//node()/%s::node()' % a for a in AXES] + ['//@*/%s::node()' % a for a in AXES]
    ctxs = range(1, N + 1) if full else sorted(rng.sample(range(1, N + 1), 6))
    g = pack(doc, qs, ctxs)
    tri = ['/descendant-or-self::node()/%s::node()/%s::*/%s::node()' % t for t in itertools.product(AXES, AXES, AXES)]
    if not full: tri = rng.sample(tri, 250)
    g += pack(doc, tri)
    ask(rep, g, 'axis_compositions')
    def mk(g):
        t = g.path(2); d = g.rng.random()
        if d < .25: t = ['('] + t + [g.rng.choice(['|', ',', 'union'])] + g.path(1) + [')', g.rng.choice(['/', '//'])] + g.step(1)
        elif d < .35: t = g.sub('nodes', 1) + [g.rng.choice(['<<', '>>', 'is'])] + g.sub('node1', 1)
        elif d < .45: t = ['('] + commas([g.path(1), g.path(1), ['reverse', '('] + g.path(1) + [')']]) + [')', '/'] + g.step(0)
        return t
    ask(rep, randoms(rng, 900 if full else 160, mk), 'random_paths')
    # nodes found in any order are put in document order
    SRC = ['//@*', '//node()', '//*', '//text()', '//comment()', '//@*[1]', '//@*[last()]', '//*[1]', '//*[last()]', '/*', '//*/*', '//node()[2]', '(//@*)[2]', '(//@*)[3]', '(//*)[3]', '(//node())[last()]', '/']
    scr = ['reverse(%s)/.' % a for a in SRC] + ['reverse(//@* | //node())/.', '(//node(), //@*)/.', '(//@*, //node())/.', '(reverse(//@*), reverse(//node()))/.', 'reverse((//node(), //@*))/self::node()', '(//@*, reverse(//*))/../@*']
    for a, b in itertools.product(SRC, SRC):
        if a != b: scr += ['(%s, %s)/.' % (a, b), '(reverse(%s), %s) | %s' % (a, b, a), '(%s, reverse(%s), %s)/self::node()' % (b, a, b)]
    g = []
    for i in range(60 if full else 14):
        d = Doc(rng, rng.randint(6, 16)).xml
        if i < 6: d = ['<r x="1" y="2"/>', '<r x="1" y="2" z="3"><a/></r>', '<r x="1"><a m="1" n="2"><b/></a><a n="3" m="4" k="5">t</a></r>', '<r><a m="1" n="2"/>t<a m="3" n="4"><!--c--></a></r>', '<r x="1" y="2" z="3"><a x="1" y="2" z="3"><a x="1" y="2" z="3"/></a></r>', doc][i]
        g += pack(d, rng.sample(scr, len(scr) if full else 110))
    ask(rep, g, 'scrambled_operands')
    dom_checks.mut_run(rep, rng, 1500 if full else 300, ('order', 'query', 'ask'), steps=14, qs=edit_queries(rng))
    dom_checks.model_dom(rep, tier, ('order',), 'P06')

def edit_queries(rng):
    def qs(a, b):
        out = ['//node()', '//@*', '//*/..', 'preceding::node()', 'following::node()', 'ancestor-or-self::node()', 'descendant::*[last()]', '(//*)[2]/following-sibling::node()', '../node()', 'preceding-sibling::node()[1]', '/', '@*/..',
               '//*/@*[1]', '//node()/ancestor::*', '(/*, .)/self::node()', '. | /', '//*[. << /*/*[last()]]', 'count(//node())', 'reverse(//node())', '//text()/following::node()[1]', '(//node())[last()] >> (//node())[1]']
        for _ in range(6):
            g = Gen(rng, ['1', 'x y'], 0)
            out.append(render(g.path(1)))
        return out
    return qs

# ------------------------------------------------------------------ P07
def p07(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P07')
    ax = AXES
    qs = ['%s::node()' % a for a in ax] + ['%s::*' % a for a in ax] + ['.', '..', '@*', '/', '//node()', './/node()', './/@*', '/node()', '../node()', '..//node()', '//@*', './node()', '/*', '//*/..', '@*/..', '/..', '/self::node()', '@node()', 'node()', '*', './/..', '@*//node()', '@*/.', '//.', '//..', './/.']
    # every tree of up to 4 nodes below the root, from every node
    kids = ['<Ea', '<Eb', 't', '<!--c-->'] if full else ['<Ea', 't']
    g = []
    for n in range(0, 5):
        for s in forests(kids, n):
            if 'tt' in s or full and n == 4 and rng.random() < .7: continue
            x = '<r n="1" m="2">%s</r>' % s.replace('<a', '<a n="1"', 1)
            cn = 3 + n + x.count('<a n=') + 1
            g += pack(x, qs, range(1, cn + 1))
    if not full: g = rng.sample(g, min(len(g), 170))
    ask(rep, g, 'axes_on_small_trees')
    g = []
    for _ in range(400 if full else 45):
        d = Doc(rng, rng.randint(6, 22))
        g += pack(d.xml, qs, rng.sample(range(1, 40), 3))
    ask(rep, g, 'axes_on_random_trees')
    # partition of the tree and inverses, as queries
    q2 = ['count(ancestor::node()) + count(descendant::node()) + count(preceding::node()) + count(following::node()) + count(self::node()) = count(//node()) + 1',
          'empty((ancestor::node() | descendant::node()) intersect (preceding::node() | following::node()))',
          'every $x in //node() satisfies (every $y in $x/descendant::node() satisfies exists($y/ancestor::node() intersect $x))',
          'every $x in //node() satisfies (every $y in $x/following::node() satisfies exists($y/preceding::node() intersect $x))',
          'every $x in //node() satisfies (every $y in $x/following-sibling::node() satisfies exists($y/preceding-sibling::node() intersect $x))',
          'every $x in //node() satisfies (every $y in $x/child::node() satisfies exists($y/parent::node() intersect $x))',
          'every $x in //* satisfies (every $y in $x/@* satisfies exists($y/parent::node() intersect $x))',
          'every $x in //node() satisfies (every $y in $x/descendant-or-self::node() satisfies exists($y/ancestor-or-self::node() intersect $x))']
    g = []
    for _ in range(150 if full else 25): g += pack(Doc(rng, rng.randint(3, 12)).xml, q2, [rng.randint(1, 30)])
    ask(rep, g, 'axis_laws')
    def mk(g):
        t = ['//'] if g.rng.random() < .3 else []
        a = g.rng.choice(AXES); t += [a, '::'] + g.test(a)
        for _ in range(g.rng.choice([0, 1, 1, 2])): a = g.rng.choice(AXES); t += ['/', a, '::'] + g.test(a)
        return t
    ask(rep, randoms(rng, 500 if full else 90, mk), 'random_steps')
    dom_checks.mut_run(rep, rng, 800 if full else 120, ('ask',), steps=10, qs=lambda a, b: ['%s::node()' % x for x in AXES] + ['//node()', '..', './/@*', '/'])

# ------------------------------------------------------------------ P08
PREDS = ['1', '2', '3', 'last()', 'last() - 1', 'position() = 2', 'position() < 3', 'position() > 1', 'position() = last()', 'position() != 1', 'position() mod 2 = 1', '@n', 'not(@n)', '@n = "1"', '1.0', '1.5', '2e0', '0', '-1', '"x"', '""', 'true()', 'false()',
         '()', '*', 'text()', '. = "x"', 'self::a', 'count(*) = 1', 'number("NaN")', '4', '(1, 2)', '(*, 1)', '/', 'position()', 'last() > 2', 'position() = (1, 3)', '@n + 0 = 1', '"1"', '1 = 1', '..', 'some $i in (1, 3) satisfies position() = $i',
         'count(preceding-sibling::*) = 1', 'position() = count(../*)', 'last() idiv 2', '1 to 1', 'if (position() = 1) then 1 else 2', 'a[1]', '*[last()]', '(*)[last()]', '*[position() = last()]/@n', 'not(position() = 2)', 'boolean(.)', 'let $p := position() return $p = 2', 'last() = 1', 'count(.) = 1', '3 - 2', '2 to 3']
def p08(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P08')
    doc = '<r><a n="1"><b>1</b>x<b n="2"/><b/></a><a>x<c/><b n="1"/></a><a n="2"/><b><a/><a n="1"/><a>x</a></b></r>'
    qs = []
    for a in AXES:
        for p in PREDS: qs.append('%s::%s[%s]' % (a, 'node()', p))
    for p in PREDS: qs += ['//a[%s]' % p, '(//a)[%s]' % p, '(//a, //b)[%s]' % p, '(1, 2, 3)[%s]' % p if not re.search(r'[@*/]|text|self|\.\.', p) else '//*[%s]' % p, '//b/..[%s]' % p, '(reverse(//*))[%s]' % p, '//a/(b[%s])' % p, '//a/(*)[%s]' % p]
    ctxs = range(1, 24) if full else sorted(rng.sample(range(1, 24), 4))
    ask(rep, pack(doc, qs, ctxs), 'predicates_per_axis')
    two = ['%s::*[%s][%s]' % (rng.choice(AXES), p, q) for p in PREDS for q in PREDS]
    two += ['(//*)[%s][%s]' % (p, q) for p in PREDS for q in PREDS]
    if not full: two = rng.sample(two, 900)
    ask(rep, pack(doc, two, [1, 7] if not full else [1, 3, 7, 12, 19]), 'predicate_pairs')
    foc = []
    for r in ['position()', 'last()', '(position(), last())', '(position() = last())', 'concat(position(), "/", last())', '*[position()]', 'count(*[last()])']:
        for l in ['//a', '//b', '//a/..', '(//a, //b)', '//a[@n]', '*', 'ancestor::*', 'preceding::*', '//b[1]', '(//b)[1]']:
            foc += ['%s/%s' % (l, r), '%s ! %s' % (l, r), '%s/*/%s' % (l, r), '%s ! (*/%s)' % (l, r), '%s[2]/%s' % (l, r), '%s ! ((7, 8) ! %s)' % (l, r) if '*' not in r else '%s ! (*)' % l]
        foc += ['(1, 2, 3) ! %s' % r, '(4 to 7)[. > 4] ! %s' % r] if '*' not in r else []
    ask(rep, pack(doc, foc, [1, 4, 12]), 'focus_on_the_right')
    def mk(g):
        k = g.rng.random()
        if k < .5: return g.step(2, .95) if g.rng.random() < .5 else g.path(2)
        if k < .7: return g.par(g.ex('nodes', 1)) + g.pred(2) + g.preds(1, .5)
        if k < .85: return g.par(g.ex('seq', 2)) + g.pred(2) + g.preds(1, .5)
        g.infocus = True
        return g.sub('nodes', 1) + [g.rng.choice(['/', '!'])] + g.par(g.ex('int', 1))
    ask(rep, randoms(rng, 1200 if full else 200, mk), 'random_predicates')
    # two predicates on every axis, from every node of a document with long axes
    deep = '<r><a n="1"/><b n="2">x<a n="3"/><c><a/><b n="4"/><a n="1"><c n="5"/><b><a n="6"/></b></a><b/></c><a/></b><a n="7"/><c/></r>'
    PP = [p for p in PREDS if 'some' not in p and 'count(' not in p]
    FRONT = ['@n', 'not(@n)', 'self::a', 'position() != 1', 'position() > 1', 'position() != 2', 'position() != last()', 'not(self::b)', '*', 'position() < last()', 'position() mod 2 = 1', 'true()']
    BACK = ['1', '2', 'last()', 'last() - 1', 'position() = 2', 'position() < 3', 'position() = last()', '3', 'position() > 1', 'position()', '@n']
    pr = [(a, p, q) for a in AXES if a not in ('self', 'parent') for p in FRONT for q in BACK]
    qs = ['%s::*[%s][%s]' % t for t in pr]
    g = pack(deep, qs if full else rng.sample(qs, 300), [16, 19] if not full else range(1, 28), 80)
    far = ['preceding', 'preceding-sibling', 'ancestor', 'ancestor-or-self', 'following', 'descendant', 'following-sibling', 'child']
    al = ['for $x in //node() return $x/%s::*[%s][%s]' % t for t in pr if t[0] in far] + ['//*/%s::*[%s][%s]' % t for t in pr] + ['(//*)[last()]/%s::*[%s][%s]' % t for t in pr if t[0] in far[:4]] + ['//%s::*[%s][%s][%s]' % (a, p, q, u) for a, p, q in pr for u in ('1', 'last()')]
    g += pack(deep, al if full else rng.sample(al, 500), [1], 40)
    ask(rep, g, 'predicate_pairs_on_long_axes')
    # the focus is as before after every expression that changes it
    inner = ['*', 'zz', '*/zz', 'zz/yy', '*/*', '//zz', '//a/@n', '(1, 2, 3)[2]', '()[1]', '*[1]', '*[position() = 9]', '*[last()]/zz', '(7, 8) ! .', '() ! 1', '*/position()', '* ! last()', 'for $i in (1, 2) return $i', 'some $i in (1, 2) satisfies $i = 1', 'every $i in (1, 2) satisfies $i = 1', 'filter((1, 2), function($i) { $i = 2 })', 'for-each((1, 2), function($i) { $i + 1 })',
             'function($i) { $i[1] }((4, 5))', '..', '../*', '../*/zz', 'ancestor::*[zz]', '@n/..', '@zz/..', '.[zz]', '(//b, //a)/zz', '*/(zz, yy)', '*/string()', 'count(*[2])', 'let $i := *[1] return $i/zz', '//*[@n][2]', '[*[1]]?1', 'map{"k": *[2]}?k', '(*/zz, *[1])[1]', '*/*[zz]', 'preceding::*[2]', '*[*[1]][1]', 'if (*[1]/zz) then 1 else *[2]', 'string-join(*/@n, "")', '*/@n[. > 1]', '(* | zz)/yy', '(*/*) intersect (*/zz)']
    l = ['//*', '*', '//a', '(//b, //c)', '(//*)[position() < 4]', '//c/*']
    qs = []
    for e in inner:
        for x in l:
            qs += ['%s ! (count((%s)), position(), last())' % (x, e), '%s ! ((%s), name(), position())' % (x, e), '%s[(%s)[1] or position() = 2]' % (x, e), '%s[exists((%s)) and position() = last()]' % (x, e), '%s[not((%s)) and position() < last()]' % (x, e), '%s/(%s, .)' % (x, e), '%s[(count((%s)), position())[2] = 2]' % (x, e)]
    ask(rep, pack(deep, qs if full else rng.sample(qs, 420), [2], 60), 'focus_after_inner_expressions')

# ------------------------------------------------------------------ P09
def p09(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P09')
    names = ['a', 'b', 'p:a', 'p:b', 'q:a', 'pa', 'A', 'a.b', 'ab', '段', 'p', 'text', 'node', 'element', 'div', 'child', 'xml']
    doc = ('<r xmlns:p="u" xmlns:q="u"><a a="1" b="2" p:a="3" q:a="4" pa="5" text="6" A="7" xml:lang="en"/><b/><p:a/><p:b/><q:a/><pa/><A/><a.b/><ab a="x"/><段 段="1"/><p/><text>t</text><node/><element/><div/><child/>'
           '<?a x?><?b?><?p:a y?><!--a--><![CDATA[a]]>a<!----><xml/><b><a b="1"><p:b p:b="1"><a q:a="1"/><q:a/></p:b></a></b></r>')
    tests = names + ['*', 'p:*', 'q:*', 'xml:*', 'z:*', '*:a', '*:b', '*:c', '*:段', '*:lang', 'node()', 'text()', 'comment()', 'processing-instruction()'] + ['processing-instruction(%s)' % n for n in ('a', '"a"', 'b', "'b'", 'c', '"p:a"', 'p:a')]
    for k in ('element', 'attribute'):
        tests += ['%s()' % k, '%s(*)' % k] + ['%s(%s)' % (k, n) for n in names[:8]]
        for t in ('xs:untyped', 'xs:anyType', 'xs:untypedAtomic', 'xs:anyAtomicType', 'xs:string', 'xs:anySimpleType', 'untyped'): tests += ['%s(*, %s)' % (k, t), '%s(a, %s)' % (k, t)] + (['%s(a, %s?)' % (k, t)] if k == 'element' else [])
    qs = ['%s::%s' % (a, t) for a in AXES for t in tests]
    sh = tests + ['@' + t for t in tests] + ['//' + t for t in tests] + ['//@' + t for t in tests]
    n = 62
    ctxs = [1, 2] + rng.sample(range(3, n), 24 if full else 1)
    if not full: qs = rng.sample(qs, 650); sh = rng.sample(sh, 300)
    ask(rep, pack(doc, qs, ctxs), 'tests_per_axis')
    ask(rep, pack(doc, sh, ctxs), 'abbreviated_tests')
    inst = ['%s instance of %s' % (e, t) for e in ['//a[1]', '(//@a)[1]', '(//text())[1]', '(//comment())[1]', '(//processing-instruction())[1]', '(//p:a)[1]', '(//@p:a)[1]', '/', '1', '"a"'] for t in tests if '(' in t]
    ask(rep, pack(doc, inst if full else rng.sample(inst, 180)), 'tests_as_types')
    # every test on every axis, from all nodes of a document at once
    mixed = '<r xmlns:p="u" a="0"><a A="1" a="2" p:a="3"><A/>a<?a x?><?A y?><?Pi z?><?pi?><p:a pa="4"><a A="5" p:A="6"/><p:A/></p:a><!--a--></a><?a?><pa><a a="1">A</a><?pa q?><P:a/></pa><!--A--><b/><?p:a?></r>'
    T2 = ['a', 'A', 'p:a', 'P:a', 'pa', 'b', '*', 'p:*', '*:a', '*:A', 'node()', 'text()', 'comment()', 'element()', 'attribute()', 'element(*)', 'attribute(*)', 'element(a)', 'attribute(a)', 'element(A)', 'attribute(A)', 'element(p:a)', 'attribute(p:a)', 'processing-instruction()'] + ['processing-instruction(%s)' % n for n in ('a', 'A', '"a"', '"A"', 'pi', 'Pi', '"PI"', 'p:a', 'pa', 'b')]
    al = ['(//node() | //@*)/%s::%s' % (a, t) for a in AXES for t in T2] + ['//@*/%s::%s' % (a, t) for a in AXES for t in T2] + ['for $x in (/, //node(), //@*) return count($x/%s::%s)' % (a, t) for a in AXES for t in T2]
    ask(rep, pack(mixed, al if full else rng.sample(al, 430), [1], 40), 'tests_from_all_nodes')
    # names in every surrounding: random trees over a few names
    def tree(d):
        n = rng.choice(['a', 'p:a', 'q:a', 'A', 'p:b', 'b'])
        at = ''.join(' %s="1"' % x for x in rng.sample(['a', 'p:a', 'A', 'p:b', 'b'], rng.choice([0, 0, 1, 2])))
        return '<%s%s>%s</%s>' % (n, at, ''.join(tree(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))) if d else rng.choice(['', 'a', '<?a?>', '<!--a-->']), n)
    T3 = ['a', 'A', 'b', 'p:a', 'p:b', 'q:a', '*:a', '*:b', '*:A', 'p:*', 'q:*', '*', 'element(a)', 'element(p:a)', 'element(b)', 'element(*)']
    ask(rep, [('<%s xmlns:p="u" xmlns:q="u">%s</%s>' % (n, tree(3) + tree(2), n), 1, ['//' + t for t in T3] + ['//@' + t.replace('element', 'attribute') for t in T3] + ['//a/' + t for t in T3] + ['//*:a/' + t for t in T3[:12]] + ['//p:*/%s' % t for t in T3[:12]] + ['//b/../' + t for t in T3[:12]])
              for n in [rng.choice(['a', 'p:a', 'r', 'q:a', 'b']) for _ in range(80 if full else 12)]], 'names_in_context')
    doc2 = '<a xsi:nil="true" n="1"><b xsi:nil="false"/><a xsi:nil="true"><c/></a><p:a xsi:nil="1"/></a>'
    ask(rep, pack(doc2, ['//%s' % t for t in tests if 'element' in t] + ['//*[nilled()]', '//*/nilled()', '//@*/nilled(.)', '/nilled()'], [1]), 'nilled_elements')
    def mk(g):
        a = g.rng.choice(AXES)
        t = g.rng.choice([[], ['//'], ['/', '*', '/']])
        a = g.rng.choice(['child', 'attribute', 'descendant', a])
        return t + [a, '::'] + g.test(a)
    ask(rep, randoms(rng, 700 if full else 110, mk), 'random_tests')

# ------------------------------------------------------------------ P10
def p10(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P10')
    doc = '<r n="0"><a n="1"><b/>t</a><a><b m="2"/></a><c/></r>'
    sets = ['()', '//a', '//b', '//*', '//@*', '//node()', '/', '(//b, //a)', '(//a, //a)', '//text()', 'reverse(//*)', '(//c, /, //@*)', 'a', '.', '..', '//a[1]', '(//node(), //@*)', 'r/*', '//b/..', '(//@m, //@n)']
    qs = ['(%s) %s (%s)' % (x, o, y) for x in sets for y in sets for o in ('|', 'union', 'intersect', 'except')]
    ask(rep, pack(doc, qs, [1, 4] if not full else range(1, 13)), 'set_operator_table')
    ones = ['(//a)[1]', '(//a)[2]', '//b[1]', '(//b)[1]', '//@n[1]', '(//@n)[1]', '(//@n)[2]', '/', '//text()', '.', '..', '//c', '()', '(//b)[1]/..', '//a', '1', '/r/@n']
    qs = ['(%s) %s (%s)' % (x, o, y) for x in ones for y in ones for o in ('is', '<<', '>>')]
    ask(rep, pack(doc, qs, [1, 5] if not full else range(1, 13)), 'node_comparison_table')
    three = ['%s %s %s %s %s' % (x, o, y, p, z) for x in sets[1:9] for y in sets[1:9] for z in sets[1:5] for o in ('|', 'intersect', 'except') for p in ('union', 'intersect', 'except')]
    ask(rep, pack(doc, rng.sample(three, 1500 if full else 250)), 'operator_chains')
    # documents of equal nodes: only identity and order tell them apart
    eq = ['<r n="1" m="1"><a n="1" m="1">t<!--c--><?p i?><b/></a><a n="1" m="1">t<!--c--><?p i?><b/></a>t<!--c--><?p i?></r>', '<a a="" b="" c=""><a a="" b=""/><a a=""/><a a="" b=""/></a>', '<a>x<a>x<a>x</a>x</a>x</a>', '<r><!----><!----><?p?><?p?><a/><a/></r>']
    KS = ['//text()', '//comment()', '//processing-instruction()', '//*', '//@*', '//a', '//@n', '//node()', '(//*)[2]/node()', '(//*)[3]/node()', '(//*)[last()]/@*', '(//*)[2]/@*', '(//@*, /)', '//a/text()', '/*/node()', '(//node())[last()]', '(//@*)[last()]', '//*[1]', 'reverse(//node())']
    qs = ['for $x in %s, $y in %s return ($x %s $y)' % (x, y, o) for x in KS for y in KS for o in ('is', '<<', '>>')] + ['(%s) %s (%s)' % (x, o, y) for x in KS for y in KS for o in ('|', 'intersect', 'except')] + ['count((%s, %s)/.)' % (x, y) for x in KS for y in KS]
    ask(rep, [z for d in eq + [gen_equal(rng) for _ in range(30 if full else 4)] for z in pack(d, rng.sample(qs, len(qs) if full else 130), [1], 45)], 'equal_nodes')
    def mk(g):
        k = g.rng.random()
        op = lambda: g.rng.choice(['|', 'union', 'intersect', 'except'])
        if k < .5: return g.sub('nodes', 2) + [op()] + g.sub('nodes', 2)
        if k < .75: return g.sub('nodes', 1) + [op()] + g.sub('nodes', 1) + [op()] + g.sub('nodes', 1)
        return g.nodecmp(2)
    ask(rep, randoms(rng, 900 if full else 150, mk), 'random_set_expressions')
    dom_checks.mut_run(rep, rng, 600 if full else 100, ('ask',), steps=10, qs=lambda a, b: ['//* | //@*', '(//node(), //*) except //text()', '//node() intersect //*', '(//node())[2] << (//node())[3]', '(//node())[1] >> (//node())[last()]', '//*[1] | ..', '. is /', '../* except .', '@* | *', '(//@* | //node()) intersect (@* | node())'])

def gen_equal(rng):
    """a document in which many nodes are equal in everything but their place"""
    n = [rng.randint(4, 11)]
    at = rng.choice(['', ' n="1"', ' n="1" m="1"'])
    def el(d):
        n[0] -= 1; k = ''; last = ''
        for _ in range(rng.randint(1, 4) if d < 4 else 0):
            if n[0] <= 0: break
            c = rng.choice('eetcp')
            if c == 't' == last: continue
            if c == 'e': k += el(d + 1)
            else: k += {'t': 't', 'c': '<!--t-->', 'p': '<?t t?>'}[c]; n[0] -= 1
            last = c
        nm = rng.choice('aaab')
        return '<%s%s>%s</%s>' % (nm, at, k, nm)
    return el(0)

# ------------------------------------------------------------------ P11
OPS = [',', 'or', 'and', '=', '!=', '<', '<=', '>', '>=', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is', '<<', '>>', '||', 'to', '+', '-', '*', 'div', 'idiv', 'mod', 'union', '|', 'intersect', 'except', '!', '/', '//']
POST = ['instance of xs:integer', 'instance of xs:boolean?', 'instance of node()*', 'instance of item()+', 'castable as xs:integer', 'castable as xs:string', 'castable as xs:boolean?', 'cast as xs:string', 'cast as xs:integer', 'cast as xs:double?', '=> count()', '=> string()', '=> concat("x")', '[1]', '[last()]', '[. = 1]']
PREF = ['-', '+', '- -', 'not']
ATOMS = ['1', '2', '3', '0', '"a"', '"1"', 'a', 'b', '//a', '@n', '.', '..', 'true()', '()', '(1, 2)', '(2, 3)', '1.5', '2e0', '*', 'a[1]', 'count(*)', '/', 'a/b', 'div', 'and', '@div', 'mod', 'or', 'to', 'is', 'eq', '$v', 'if', 'for', 'child::div', '(a, b)', '-1', 'text()', '(//b)']
LEAD = ['if (1 = %s) then %s else', 'for $v in %s return', 'let $v := %s return', 'some $v in %s satisfies', 'every $v in %s satisfies', 'if (%s) then 1 else']
def chain(rng, n):
    out = ''
    k = rng.random()
    if k < .18:
        l = rng.choice(LEAD)
        out += (l % tuple(chain(rng, 1) if rng.random() < .4 else rng.choice(ATOMS[:14]) for _ in range(l.count('%s')))) + ' '
    for i in range(n):
        if i:
            o = rng.choice(OPS if rng.random() < .8 else ['+', '-', '*', '=', 'and', 'or', '|', 'to', '/', '||', 'div'])
            out += ' ' + o + ' ' if o not in ('/', '//') else o
        a = rng.choice(ATOMS[:12] if rng.random() < .6 else ATOMS)
        if rng.random() < .14: a = rng.choice(PREF[:3]) + ' ' + a
        if a == '$v': a = '$v' if 'v' in out.split('$')[1:2] or '$v' in out else '1'
        out += a
        if rng.random() < .16:
            p = rng.choice(POST)
            out += p if p[0] == '[' else ' ' + p
    return out
DPOOL = ['1', '2', '3', '0', '-1', '1.5', '2e0', '"a"', '"1"', 'true()', 'false()', '()', '(1, 2)', '(2, 3)', '(0, 1)', '//a', '//b', '//*', '(//a)[1]', '(//a)[last()]', '//b[1]', 'a', 'b', '@n', '.', '..', '/', 'map{1: 2}', '[2, 3]', '*', '//a/..', '(a | b)', 'count#1', '"x"', 'a/b', 'text()', '8', '4']
def spans(toks):
    """texts of an operator chain with one part of it in parentheses; toks: (text, kind), kind: o operand, i infix, f prefix, p postfix"""
    def text(ts): return ''.join(t if t in ('/', '//') else ' ' + t + ' ' if k == 'i' else t + ' ' if k == 'f' else t if k == 'p' and t[0] in '[?(' else ' ' + t if k == 'p' else t for t, k in ts)
    n = len(toks); out = [text(toks)]
    for i in range(n):
        if toks[i][1] not in 'of': continue
        for j in range(i + 1, n):
            if toks[j][1] in 'op' and (i, j) != (0, n - 1): out.append(text(toks[:i]) + '(' + text(toks[i:j + 1]) + ')' + text(toks[j + 1:]) if i == 0 or toks[i - 1][1] == 'f' or toks[i - 1][0] in ('/', '//') else text(toks[:i]) + '(' + text(toks[i:j + 1]) + ')' + text(toks[j + 1:]))
    return out
def telling(rng, shapes, doc, ctx, tries, keep):
    """For every shape (a list of (text, kind), operands left None) the operand
    choices under which grouping in different ways gives most different ends;
    the groupings are asked of the real code with parentheses, which only
    serves to choose: the chain itself is judged by the specification."""
    cand = []
    for k, sh in enumerate(shapes):
        for _ in range(tries):
            t = [(rng.choice(DPOOL) if x is None else x, y) for x, y in sh]
            cand.append((k, spans(t)))
    reqs, N = [], 40
    for i in range(0, len(cand), N): reqs.append(core.request('xp', doc, ctx, *[q for _, l in cand[i:i + N] for q in l]))
    best = {}
    for i, o in enumerate(core.run(reqs)):
        part = cand[i * N:(i + 1) * N]; res = iter(o.get('res', []))
        for k, l in part:
            ends = [json.dumps([r.get('ok'), r.get('items')]) for r in (next(res, {}) for _ in l)]
            best.setdefault(k, []).append((len(set(ends)), sum(1 for e in ends if '"ok": true' in e or '[true' in e), rng.random(), l[0]))
    out, told = [], 0
    for k in best:
        b = sorted(best[k], reverse=True)[:keep]; told += b[0][0] > 1
        out += [x[3] for x in b]
    return out, told
def model_expr(rep, tier):
    """MCExpr builds every chain of operators up to a length and shows that the
    grammar reads it like its parenthesised form; both forms of each are asked."""
    rng = random.Random('chains %d' % rep.seed); full = tier == 'thorough'
    doc = '<r n="1"><w><a n="2">1<a>2</a><d/></a><b>2<a n="2"/></b><c>3<b n="3"/></c><d>1</d></w></r>'
    open_ops = ['child::%s', 'child::%s', '%d', '(%d, 2)', '"%d"', '(child::%s, %d)', '%d.5', 'true()', 'number(child::%s)', '(%d to 2)']
    def other(t):
        ops = {}
        for i, c in enumerate('abcd', 1):
            o = rng.choice(open_ops); ops['child::' + c] = o % tuple({'s': c, 'd': i}[x] for x in re.findall('%([sd])', o))
        return [re.sub('child::[a-d]', lambda m: ops[m.group(0)], x) for x in t]
    r = core.tlc('MCExpr', cfg='MCExprDeep' if full else 'MCExpr')
    if r.rc != 0 or 'Model checking completed. No error' not in r.out: raise core.ToolError('TLC failed on MCExpr: ' + r.out[-1500:])
    chains = sorted({tuple(core.uncps(x) for x in json.loads(json.loads(w))) for kind, s, l, w in r.marks})
    rep.add(model_states=r.distinct, model_transitions=r.generated, model_chains=len(chains))
    if full: chains = rng.sample(chains, min(len(chains), 9000))
    qs = [q for c in chains for t in [c] + [other(c) for _ in range(2)] for q in t if q]
    ask(rep, pack(doc, list(dict.fromkeys(qs)), [3], 60), 'chains_of_the_model')
def p11(rep, tier, rng):
    full = tier == 'thorough'
    model_expr(rep, tier)
    tdoc = '<r n="1"><a n="2">1<b/></a><b>2<a n="2"/></b><a><b n="3"/><a/></a>x</r>'
    I = lambda o: (o, 'i')
    pairs = [[(None, 'o'), I(o), (None, 'o'), I(q), (None, 'o')] for o in OPS for q in OPS]
    pairs += [[(None, 'o'), I(o), (None, 'o'), (q, 'p')] for o in OPS for q in POST + ['?1', '?*', '(1)', 'treat as item()*'][:3]] + [[(f, 'f'), (None, 'o'), I(o), (None, 'o')] for o in OPS for f in ('-', '+', '- -')] + [[(None, 'o'), I(o), (f, 'f'), (None, 'o')] for o in OPS for f in ('-', '+')]
    pairs += [[(None, 'o'), (a, 'p'), (b, 'p')] for a in POST for b in POST] + [[(f, 'f'), (None, 'o'), (a, 'p')] for a in POST + ['?1'] for f in ('-', '+')] + [[(None, 'o'), (a, 'p'), I(o), (None, 'o')] for a in POST for o in OPS]
    lead = [[('if (%s) then %s else' % (rng.choice(DPOOL[:10]), rng.choice(DPOOL)), 'f'), (None, 'o'), I(o), (None, 'o')] for o in OPS] + [[(l, 'f'), (None, 'o'), I(o), (None, 'o')] for o in OPS for l in ('for $v in (1, 2) return', 'let $v := 1 return', 'some $v in (0, 1) satisfies', 'every $v in (1, 0) satisfies')]
    pairs += lead
    tr = [[(None, 'o'), I(rng.choice(OPS)), (None, 'o'), I(rng.choice(OPS)), (None, 'o'), I(rng.choice(OPS)), (None, 'o')] for _ in range(4000 if full else 420)]
    qs, told = telling(rng, pairs, tdoc, 2, 60 if full else 22, 4 if full else 1)
    if not full: qs = [q for q in qs if rng.random() < .75]
    qt, told2 = telling(rng, tr, tdoc, 2, 30 if full else 14, 2 if full else 1)
    rep.add(operator_shapes=len(pairs) + len(tr), operator_shapes_whose_groupings_differ=told + told2)
    ask(rep, pack(tdoc, qs + qt, [2], size=60), 'telling_operands')
    doc = '<r n="1"><a n="2">1<b/></a><b>2<a/></b><div div="3"/><and/><a/><mod/><or/><to>3</to><is/><eq/><if/><for/></r>'
    # all pairs of operators around literals, node sequences and names
    trip = [('8', '4', '2'), ('a', 'b', '*'), ('1', '2', '3')]
    trip += [('//a', '//b', '//*'), ('"1"', '"2"', '"3"'), ('(1, 2)', '(2, 3)', '(3, 1)'), ('2', '3', '1'), ('true()', '1', '0')]
    qs = []
    for x, y, z in trip[:4] if not full else trip:
        for o in OPS:
            for p in OPS:
                s = lambda q: q if q in ('/', '//') else ' %s ' % q
                qs.append(x + s(o) + y + s(p) + z)
    if not full: qs = rng.sample(qs, 1600)
    ask(rep, pack(doc, qs, [2]), 'operator_pairs')
    qs = []
    for p in POST:
        for o in OPS:
            s = o if o in ('/', '//') else ' %s ' % o
            qs += ['2%s1 %s' % (s, p), '1 %s%s2' % (p, s), 'a%sb %s' % (s, p), '%s a %s' % (rng.choice(['-', '+']), p)]
    for pr in ['-', '+', '--', '-+']:
        for o in OPS:
            s = o if o in ('/', '//') else ' %s ' % o
            qs += ['%s2%s3' % (pr, s), '2%s%s3' % (s, pr)]
    for p in POST:
        for q in POST: qs += ['1 %s %s' % (p, q), 'a %s %s' % (p, q)]
    if not full: qs = rng.sample(qs, 1500)
    ask(rep, pack(doc, qs, [2]), 'postfix_and_sign_pairs')
    words = ['and', 'or', 'div', 'idiv', 'mod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is', 'to', 'union', 'intersect', 'except', 'instance', 'of', 'treat', 'as', 'castable', 'cast', 'in', 'return', 'satisfies', 'then', 'else', 'for', 'let', 'some', 'every', 'if', 'map', 'array', 'function', 'child', 'self', 'text', 'node', 'last', 'item', 'element', 'attribute', 'empty-sequence', 'position']
    wdoc = '<r>' + ''.join('<%s %s="%d">%d</%s>' % (w, w, i, i, w) for i, w in enumerate(words)) + '</r>'
    qs = []
    for w in words:
        qs += [w, '@' + w, '//' + w, 'child::' + w, '%s/@%s' % (w, w), '%s | a' % w, '(%s, %s)' % (w, w), 'count(%s)' % w, '*[%s]' % w, '* [self::%s]' % w, '%s = %s' % (w, w), '%s + 1' % w, '1 + %s' % w, 'for $%s in 1 return $%s' % (w, w), 'let $x := %s return $x' % w,
               'if (%s) then %s else %s' % (w, w, w), '%s div 2' % w, '%s and %s' % (w, w), '%s %s %s' % (w, w, w), '%s mod %s' % (w, w), '%s[1]' % w, '%s instance of element()' % w, '-%s' % w, '%s eq "3"' % w, '%s to 5' % w, '/r/%s' % w, '%s/..' % w, '%s ! string()' % w, 'some $x in %s satisfies $x' % w, '%s is %s' % (w, w), '%s union %s' % (w, w), 'map{"%s": %s}?%s' % (w, w, w), '%s except %s' % (w, w), '* %s 2' % w, '. %s .' % w, '2 %s 2' % w, '.. %s ..' % w, '"1" %s "1"' % w, '(1) %s (1)' % w, '$%s' % w, 'every $%s in * satisfies $%s' % (w, w)]
    if not full: qs = rng.sample(qs, 1000)
    ask(rep, pack(wdoc, qs, [2]), 'operator_words_as_names')
    n = 14000 if full else 1800
    qs = [chain(rng, rng.choice([2, 3, 3, 4, 4, 5, 6])) for _ in range(n)]
    ask(rep, [(doc, rng.choice([2, 2, 2, 4]), qs[i:i + 12]) for i in range(0, n, 12)], 'random_chains')

# ------------------------------------------------------------------ P12
VALS = ['1', '2', '0', '-1', '1.0', '1.5', '2.0', '1e0', '2e0', '0e0', 'number("NaN")', '(1 div 0e0)', '(-1 div 0e0)', '"a"', '"b"', '""', '"1"', '"2"', '"10"', '"A"', '"é"', '"ab"', '"true"', 'true()', 'false()', '()', '(1, 2)', '("a", "b")',
        '//a', '//b', '(//a)[1]', '//@n', '(//@n)[1]', '//zz', '(1, "a")', '9007199254740993', '9007199254740992e0', '9223372036854775807', '(true(), 1)', '//a/text()', '3', '"3"', '0.1', '1e-1', '(0, 5)', 'map{}', '[1]', '[]', '[1, 2]', '"NaN"', '/', '"𝄞"', '"\uffff"', '-0e0', '0.0', 'concat#2']
STRORD = ['', 'a', 'b', 'ab', 'aa', 'B', 'é', 'e', 'f', '段', '𝄞', '\uffee', '\ue000', '\ud7ff', '\U00010000', '\U0010ffff', 'a\uffee', 'a𝄞', '\uffeea', '𝄞a', '𝄞\uffee', '𝄞𝄞', '1', '10', '9', ' ', 'a b', 'ß', 'ss', '~', '\x7f', '\u0080', 'Z', '_']
CMPV = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']; CMPG = ['=', '!=', '<', '<=', '>', '>=']
EDGE = [2 ** 63 - 1, 2 ** 63 - 512, 2 ** 62, 2 ** 53, 2 ** 54, 10 ** 16, 10 ** 18, 2 ** 32, 2 ** 31, 2 ** 24, 1, 0]
def near(rng):
    """two numbers that are equal or nearly equal, each an integer, a decimal or a double"""
    v = rng.choice([1, -1]) * (rng.choice(EDGE) + rng.randint(-2, 2)) if rng.random() < .85 else rng.randint(-2 ** 63 + 1, 2 ** 63 - 1) >> rng.randint(0, 62)
    w = v + rng.choice([0, 0, 1, -1, 1, -1, 2, -2])
    def form(n):
        n = max(-2 ** 63 + 1, min(2 ** 63 - 1, n)); k = rng.random()
        return '%d' % n if k < .6 else '%d.0' % n if k < .7 else '%d.5' % n if k < .75 else '%de0' % n
    return form(v), form(w)

def p12(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P12')
    doc = '<r n="1"><a n="2">1</a><b n="10">2</b><a>a</a><a>3</a><b>b</b><a/></r>'
    qs = ['%s %s %s' % (a, o, b) for a in VALS for b in VALS for o in CMPV + CMPG]
    if not full: qs = rng.sample(qs, 9000)
    ask(rep, pack(doc, qs, size=80), 'comparison_table')
    strs = STRORD
    qs = ['"%s" %s "%s"' % (a, o, b) for a in strs for b in strs for o in CMPV] + ['compare("%s", "%s")' % (a, b) for a in strs for b in strs]
    ask(rep, pack(doc, qs if full else rng.sample(qs, 1500), size=80), 'string_order')
    ask(rep, pack(doc, ['%s %s %s' % (a, rng.choice(CMPV + CMPG), b) for a, b in (near(rng) for _ in range(9000 if full else 1200))], size=80), 'neighbouring_numbers')
    def mk(g): return g.compare(3)
    ask(rep, randoms(rng, 1500 if full else 200, mk, wrong=.08), 'random_comparisons')
    def mk2(g): return g.seqof(g.rng.choice(['num', 'str', 'bool', 'nodes', 'item']), 2) + [g.rng.choice(CMPG)] + g.seqof(g.rng.choice(['num', 'str', 'bool', 'nodes', 'item']), 2)
    ask(rep, randoms(rng, 600 if full else 90, mk2), 'random_general_comparisons')

# ------------------------------------------------------------------ P13
NUMS = ['0', '1', '2', '3', '7', '-1', '-2', '-7', '10', '9223372036854775807', '-9223372036854775807', '9223372036854775806', '4611686018427387904', '3037000500', '-3037000500', '4294967296', '2147483648', '0.0', '0.5', '1.5', '-1.5', '2.5', '0.1', '100.75', '-0.25', '3.0', '1e0', '-1e0', '0e0', '-0e0', '1.5e0', '2.5e3', '1e-3', '1e15',
        'number("NaN")', '(1 div 0e0)', '(-1 div 0e0)', '1e100', '-1e18', '9223372036854775808.0', '1e19', '9007199254740993', '0.000001', '()', '"1"', 'a', '@n', '(1, 2)', 'true()', '(-9223372036854775807 - 1)', '-9.5', '7.25e0', '123456789', '1.0000000000000002e0', '4.9e-300']
AOPS = ['+', '-', '*', 'div', 'idiv', 'mod']
def p13(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P13')
    doc = '<r n="3"><a>4</a><b>x</b></r>'
    qs = ['%s %s %s' % (a, o, b) for a in NUMS for b in NUMS for o in AOPS]
    qs += ['%s%s' % (s, a) for s in ('-', '+', '--', '-+') for a in NUMS]
    if not full: qs = rng.sample(qs, 7000)
    ask(rep, pack(doc, qs, [2], size=80), 'arithmetic_table')
    # integers around the bounds of the type and of exact doubles
    big = []
    B = [2 ** 63 - 1, 2 ** 62, 2 ** 53, 2 ** 53 + 1, 2 ** 32, 2 ** 31, 3037000499, 3037000500, 10 ** 18, 1, 2, 3, 0, 7]
    for _ in range(6000 if full else 900):
        a, b = [max(-2 ** 63 + 1, min(2 ** 63 - 1, rng.choice([1, -1]) * (rng.choice(B) + rng.randint(-2, 2)) if rng.random() < .7 else rng.randint(-2 ** 63 + 1, 2 ** 63 - 1) >> rng.randint(0, 62))) for _ in range(2)]
        big.append('%d %s %d' % (a, rng.choice(['+', '-', '*', 'idiv', 'mod', 'div']), b) if rng.random() < .9 else '%d idiv %d.5' % (a, b))
    ask(rep, pack(doc, big, [2], size=80), 'integer_bounds')
    flt = []
    def fl():
        k = rng.random()
        if k < .06: return rng.choice(['9223372036854775807', '9223372036854775808.0', '9223372036854775807.0', '1e19', '9.3e18', '9.2e18', '-9223372036854775808.0', '-1e19', '(-9223372036854775807 - 1)', '1e-300', '1e300', '4.6e18', '0.5', '2.0', '1.0'])
        if k < .3: return '%d.%d' % (rng.randint(0, 99), rng.randint(0, 9999))
        if k < .6: return '%d.%de%d' % (rng.randint(0, 9), rng.randint(0, 999999), rng.randint(-20, 20))
        if k < .8: return '%de0' % rng.randint(-1000, 1000)
        return '%d' % rng.randint(-50, 50)
    for _ in range(9000 if full else 1200): flt.append('%s %s %s' % (fl(), rng.choice(AOPS), fl()))
    ask(rep, pack(doc, flt, [2], size=80), 'floating_operands')
    qs = ['%s %s %s' % (a, o, b) for a in NUMS[:40] for b in NUMS[:40] for o in AOPS]
    qs = ['(%s) instance of %s' % (q, t) for q in rng.sample(qs, 2500 if full else 350) for t in ('xs:integer', 'xs:decimal', 'xs:double')]
    ask(rep, pack(doc, qs, [2], size=80), 'result_types')
    def mk(g): return g.sub('num', 2) + [g.rng.choice(AOPS)] + g.sub('num', 2) if g.rng.random() < .7 else g.int(3)
    ask(rep, randoms(rng, 900 if full else 120, mk), 'random_arithmetic')

# ------------------------------------------------------------------ P14
EBV = ['()', '0', '1', '-1', '0.0', '0.1', '0e0', '1e0', '-0e0', 'number("NaN")', '(1 div 0e0)', '""', '"x"', '"false"', '"0"', 'true()', 'false()', '//a', '//zz', '(//a, 1)', '(1, //a)', '(1, 2)', '("a", "b")', '(true(), false())', '/', '@n', 'map{}', '[]', '[1]', 'map{1: 2}', 'count#1', '(//a)[1]/text()', '(false())', '(//a, error)', '("", "")', '.', '(0)', '(0, //a)', '(//zz, 0)', '((), "")', '" "', '"\n"', '"\u00a0"', '"a b"', '" 0 "', '"NaN"', '1e-9', '0.000001', '-0.5', '256', '4294967296', '65536.0', '1e300', '//@n', '(//a/text())[1]', '"true"', '"()"']
BAD = ['(1, 2)', '"x" + 1', '$nope', '1 div 0', 'map{}', '(1 = (1, "a")) + "z"', '[1](7)', 'number((1, 2))', 'exactly-one(())', '("a", 1)', 'count#1']
def p14(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P14')
    doc = '<r n=""><a>0</a><a/></r>'
    qs = []
    for e in EBV:
        qs += ['boolean(%s)' % e, 'not(%s)' % e, 'if (%s) then 1 else 2' % e, '(1)[%s]' % e, '//a[%s]' % e, 'some $x in 1 satisfies %s' % e, 'every $x in 1 satisfies %s' % e, 'some $x in (%s) satisfies $x' % e, 'every $x in (%s) satisfies $x' % e, 'filter(1, function($x) { %s })' % e, '(1, 2, 3)[%s]' % e, 'not(not(%s))' % e,
               'filter((1, 2), function($x) { boolean(%s) })' % e, 'boolean(%s) = not(%s)' % (e, e), 'exists(%s)' % e, 'empty(%s)' % e]
    rows, qs = qs, []
    qs += ['%s %s %s' % (a, o, b) for a in EBV for b in EBV for o in ('and', 'or')]
    qs += ['%s %s %s' % (a, o, b) for a in EBV[:20] for b in BAD for o in ('and', 'or')] + ['%s %s %s' % (b, o, a) for a in EBV[:20] for b in BAD for o in ('and', 'or')]
    qs += ['if (%s) then %s else %s' % (a, b, c) for a in EBV for b in ['1', '1 div 0'] for c in ['2', '1 div 0']]
    qs += ['%s %s %s %s %s' % (a, o, b, p, c) for a in ('1', '0') for b in ('1', '0', '1 div 0') for c in ('1', '0', '1 div 0') for o in ('and', 'or') for p in ('and', 'or')]
    qs += ['%s $x in (%s) satisfies %s' % (q, s, b) for q in ('some', 'every') for s in ('()', '1', '(0, 1)', '(1, 0)', '(0, 0)', '(1, 1)', '(0, 1, "a")', '(1, 0, "a")', '//a') for b in ('$x', '$x = 1', 'not($x)', '$x div 0 = 1', '$x + 1', '()', '1 div $x > 0', 'string($x)')]
    ask(rep, pack(doc, rows + (qs if full else rng.sample(qs, min(len(qs), 3200))), [2], size=80), 'boolean_table')
    def mk(g):
        k = g.rng.random()
        if k < .4: return g.bool(3)
        if k < .6: return g.sub('any', 2) + [g.rng.choice(['and', 'or'])] + g.sub('any', 2)
        if k < .8: return ['if', '('] + g.ex('any', 2) + [')', 'then'] + g.single('item', 1) + ['else'] + g.single('item', 1)
        if k < .9: return g.quant(3)
        return [g.rng.choice(['not', 'boolean']), '('] + g.any(3) + [')']
    ask(rep, randoms(rng, 1200 if full else 190, mk, wrong=.1), 'random_conditions')

# ------------------------------------------------------------------ P15
def p15(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P15')
    doc = '<r n="1"><a n="2"><b/>x</a><a>y</a><b n="3"/></r>'
    V = ['x', 'y', 'x']
    def expr(d, scope):
        k = rng.random()
        vs = ['$' + v for v in scope] or ['0']
        if d == 0 or k < .2:
            j = rng.random()
            if j < .72: return rng.choice(vs)
            if j < .8: return '$' + rng.choice(['x', 'y', 'z'])        # possibly not in scope
            return rng.choice(['1', '2', '(1, 2)', '//a', '()', '"s"', '@n', '(3, 4, 5)', '.'])
        if k < .62:
            w = rng.choice(['for', 'let', 'some', 'every', 'for', 'let'])
            cl, sc = [], list(scope)
            for _ in range(rng.choice([1, 1, 2, 3])):
                v = rng.choice(['x', 'y', 'z'])
                cl.append('$%s %s %s' % (v, ':=' if w == 'let' else 'in', expr(d - 1, sc))); sc.append(v)
            b = expr(d - 1, sc)
            if w in ('some', 'every'): return '(%s %s satisfies %s = %s)' % (w, ', '.join(cl), b, rng.choice(['1', '2', '"y"', '$' + sc[-1]]))
            return '(%s %s return %s)' % (w, ', '.join(cl), b)
        if k < .75: return '(%s, %s)' % (expr(d - 1, scope), expr(d - 1, scope))
        if k < .82: return '(%s)[%s]' % (expr(d - 1, scope), rng.choice(['1', 'last()', '. = %s' % expr(d - 1, scope), expr(0, scope)]))
        if k < .88: v = rng.choice(['x', 'y']); return 'function($%s) { %s }(%s)' % (v, expr(d - 1, scope + [v]), expr(d - 1, scope))
        if k < .92: return 'if (%s) then %s else %s' % (expr(d - 1, scope), expr(d - 1, scope), expr(d - 1, scope))
        if k < .95: return 'for-each(%s, function($%s) { %s })' % (expr(d - 1, scope), 'x', expr(d - 1, scope + ['x']))
        return 'count(%s)' % expr(d - 1, scope)
    n = 20000 if full else 3600
    qs = []
    while len(qs) < n:
        q = expr(rng.choice([2, 3, 3, 4]), [])
        if len(q) < 500 and '$' in q: qs.append(q)
    ask(rep, [(doc, rng.choice([1, 3]), qs[i:i + 15]) for i in range(0, n, 15)], 'random_bindings')
    # what is left of a binding after every way out
    outs = ['some $x in (1, 2) satisfies $x = 1', 'some $x in (1, 2) satisfies $x = 3', 'every $x in (1, 2) satisfies $x = 1', 'every $x in (1, 2) satisfies $x = (1, 2)', 'some $x in () satisfies $x', 'for $x in (1, 2) return $x', 'let $x := 1 return $x', 'for $x in () return 1', 'function($x) { $x }(1)',
            'some $x in (1, 2), $y in (3, 4) satisfies $x + $y = 5', 'every $x in (1, 2), $y in (3, 4) satisfies $x < $y', 'for $x in (1, 2), $y in ($x, 7) return $y', 'let $x := 5, $y := $x + 1 return ($x, $y)', 'let $x := 1, $x := $x + 1 return $x', 'for $x in 1 to 3, $x in $x to 3 return $x',
            'filter((1, 2), function($x) { $x = 1 })', '(1 to 3)[some $x in . satisfies $x = 2]', '//a[let $x := @n return $x]', 'for $x in //a return $x/(for $x in * return name($x))', 'some $x in 1 satisfies (some $x in 2 satisfies $x = 2) and $x = 1', 'count#1(for $x in 1 to 4 return $x)', 'some $x in (0, 1), $y in (0, 1) satisfies $x', 'for $x in 1 return (some $x in 2 satisfies true(), $x)',
            'let $f := function($x) { for $y in $x return $y + 1 } return $f(1)', 'if (some $x in 1 satisfies $x) then 1 else 2', '(for $x in 1 to 2 return [$x])?1', 'map{"k": (for $x in 1 return $x)}?k', 'some $x in (1, 2) satisfies $x = "a"']
    qs = []
    for o in outs:
        qs += [o, '(%s, $x)' % o, 'let $x := 9 return (%s, $x)' % o, 'for $x in (8, 9) return (%s, $x)' % o, 'let $x := 9, $y := 10 return (%s, $x, $y)' % o, 'some $x in 9 satisfies ((%s)[1], $x)[last()] = 9' % o, 'function($x) { %s, $x }(9)' % o, '(%s) ! (., $x)' % o, 'let $x := 9 return (1 to 2)[(%s)[1] or $x] ! $x' % o, 'let $x := (%s) return $x' % o, 'let $y := (%s) return ($y, $x)' % o, 'let $x := "q" return ((%s) = 1, $x)' % o]
    for a, b in itertools.product(outs, outs): qs.append('let $x := 9 return (%s, %s, $x)' % (a, b))
    ask(rep, pack(doc, qs if full else rng.sample(qs, 750), [2]), 'ways_out')
    def mk(g):
        k = g.rng.random(); kind = g.rng.choice(['int', 'str', 'seq', 'nodes', 'num'])
        return g.forx(kind, 3) if k < .4 else g.letx(kind, 3) if k < .75 else g.quant(3)
    ask(rep, randoms(rng, 700 if full else 90, mk), 'random_binding_expressions')

# ------------------------------------------------------------------ P16
SEQS = ['()', '1', '(1, 2)', '(1, 2, 3)', '("a", "b", "a")', '(1, "1", 1.0, 1e0)', '//a', '(//b, //a)', '(1, (), (2, (3, 4)))', '(1 to 5)', '(//a, 1, "x")', '((1, 2), (3, 4))', '(true(), 1, "true")', '(number("NaN"), 1)', '@n', '"x"', '(3, 2, 1)', '([1, 2], 3)', '(map{}, 1)', '(for $i in 1 to 3 return ($i, $i * 10))']
POSS = ['0', '1', '2', '3', '4', '5', '6', '-1', '-5', '9223372036854775807', '-9223372036854775807', '1.5', '2.5', '0.5', '-0.5', '1e0', '2.4999e0', 'number("NaN")', '(1 div 0e0)', '(-1 div 0e0)', '1e10', '()', '"1"', '(1, 2)', '@n', '0.0', '3.5', '1e19', '-1e19', '9223372036854775806.5']
def p16(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P16')
    doc = '<r n="2"><a>1</a><b>x</b><a>b</a></r>'
    ask(rep, pack(doc, ['index-of((%s, %s, 2), %s)' % (a, c, b) for a, b, c in (near(rng) + near(rng)[:1] for _ in range(2000 if full else 150))], size=80), 'neighbouring_numbers')
    qs = []
    for s in SEQS:
        qs += ['%s(%s)' % (f, s) for f in ('head', 'tail', 'reverse', 'empty', 'exists', 'count', 'zero-or-one', 'one-or-more', 'exactly-one')]
        qs += ['index-of(%s, %s)' % (s, v) for v in ('1', '"a"', '1.0', '1e0', '2', '"1"', 'true()', '()', '(1, 2)', 'number("NaN")', '//a[1]', '"b"', '"x"', '"true"', '0', '[1]')]
        qs += ['remove(%s, %s)' % (s, p) for p in POSS] + ['insert-before(%s, %s, %s)' % (s, p, t) for p in POSS for t in ('()', '9', '(8, 9)', '//b')]
        qs += ['subsequence(%s, %s)' % (s, p) for p in POSS] + ['subsequence(%s, %s, %s)' % (s, p, l) for p in POSS for l in POSS]
        qs += ['(%s, %s)' % (s, t) for t in SEQS] + ['count((%s, %s))' % (s, t) for t in SEQS]
        qs += ['reverse(reverse(%s))' % s, 'count(%s) = count(reverse(%s))' % (s, s), '(head(%s), tail(%s))' % (s, s), 'for $i in 1 to count(%s) return (%s)[$i]' % (s, s), 'for $i in 1 to count(%s) return subsequence(%s, $i, 1)' % (s, s), 'for $i in 0 to 5 return count(remove(%s, $i))' % s, 'for $i in 0 to 5 return count(insert-before(%s, $i, "n"))' % s]
    rng_ = ['0', '1', '3', '-2', '5', '()', '1.0', '"1"', '(1, 2)', '1e0', '@n', 'true()', '-9223372036854775807', '9223372036854775807', '//a', '[2]']
    qs += ['%s to %s' % (a, b) for a in rng_ for b in rng_ if not ('922' in a + b and a != b and not (a.startswith('92')))]
    qs += ['count(%s to %s)' % (a, b) for a, b in [('1', '300'), ('-100', '100'), ('5', '1'), ('9223372036854775805', '9223372036854775807'), ('-9223372036854775807', '-9223372036854775806')]]
    ask(rep, pack(doc, qs if full else rng.sample(qs, 9000), [2], size=90), 'sequence_function_table')
    # every short sequence over a few items, and every position around it
    few = [', '.join(x) for n in range(6) for x in itertools.product('12', repeat=n)] + [', '.join(x) for n in range(4) for x in itertools.product(['1', '"a"', '1.0', '//b'], repeat=n)]
    qs = [f % s for s in dict.fromkeys(few) for f in ('index-of((%s), 1)', 'index-of((%s), "a")', 'reverse((%s))', 'distinct-values((%s))', '(%s)[2]', 'remove((%s), 2)', 'subsequence((%s), 2, 2)', 'insert-before((%s), 2, 5)', 'tail((%s))', '(%s)[last()]', '(%s)[. = 1]')]
    if not full: qs = rng.sample(qs, 450)
    for n in (0, 1, 2, 3, 5, 8):
        for k in list(range(-2, 14)) + [20, 100]:
            qs += [f % (n, k) for f in ('insert-before(1 to %d, %d, "x")', 'insert-before(1 to %d, %d, ("x", "y"))', 'remove(1 to %d, %d)', 'subsequence(1 to %d, %d)', 'subsequence(1 to %d, %d, 2)', '(1 to %d)[%d]', 'subsequence(1 to %d, 0, %d)', 'subsequence(1 to %d, %d.5, 2.5)', 'subsequence(1 to %d, -1.5, %d)')]
    ask(rep, pack('<r><b>t</b></r>', qs, [1], size=90), 'short_sequences_and_positions')
    def mk(g): return g.seqfn(3) if g.rng.random() < .7 else g.seq(3)
    ask(rep, randoms(rng, 1200 if full else 170, mk), 'random_sequences')

# ------------------------------------------------------------------ P17
PSTR = ['', 'a', 'b', 'ab', 'ba', 'aba', 'abc', 'abcabc', 'é', 'ÉA', 'aß', '段落', '𝄞a𝄞', 'a b', ' a ', "it's", '1', '12345', 'aaa', 'AbC', 'ŉ', 'ǆ', 'ﬁ', 'İ', 'ΑΣ', '\u00a0x', '-', 'a-b', '&<', 'xyz\n']
def lit(s): return '"%s"' % s.replace('"', '""')
def p17(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P17')
    doc = '<r n="ab"><a>abc</a><b>段<c>落</c></b><d/></r>'
    L = [lit(s) for s in PSTR]
    args = L + ['()', '//a', '(//b)[1]', '@n', '//d', '12', '1.5', 'true()', '("a", "b")']
    two = ['contains', 'starts-with', 'ends-with', 'substring-before', 'substring-after', 'compare', 'codepoint-equal', 'concat']
    qs = ['%s(%s, %s)' % (f, a, b) for f in two for a in args for b in args]
    qs += ['%s || %s' % (a, b) for a in args for b in args]
    if not full: qs = rng.sample(qs, 4200)
    one = ['%s(%s)' % (f, a) for f in ('string-length', 'upper-case', 'lower-case', 'string-to-codepoints', 'string') for a in args] + ['%s/%s()' % (p, f) for p in ('//a', '//b', '//d', '/', '//@n', '//text()') for f in ('string-length', 'string')]
    qs += one + ['codepoints-to-string(string-to-codepoints(%s))' % a for a in args] + ['codepoints-to-string(%s)' % a for a in ('()', '65', '(65, 66)', '0', '(55296)', '57344', '1114111', '1114112', '-1', '9', '(119070, 97)', '"a"', '1.0', '(27573, 33853)', '65533', '57343', '4294967361')]
    P = ['0', '1', '2', '3', '4', '7', '-1', '-42', '1.5', '2.5', '0.5', '-0.5', '2.4999', '1e0', 'number("NaN")', '(1 div 0e0)', '(-1 div 0e0)', '1e10', '9223372036854775807', '()', '"1"', '0.0', '-9223372036854775807', '1e19']
    for a in ['"motor car"', '"12345"', '"𝄞a段b"', '""', '"x"', '()', '@n', '//b']:
        qs += ['substring(%s, %s)' % (a, p) for p in P] + ['substring(%s, %s, %s)' % (a, p, l) for p in P for l in P]
    T = ['""', '"a"', '"ab"', '"ba"', '"aab"', '"段é"', '"ABC"', '"-"', '"xyz"']
    qs += ['translate(%s, %s, %s)' % (a, b, c) for a in ['"abcabc"', '"段aéb"', '""', '()', '"a-b-c"', '@n'] for b in T for c in T]
    qs += ['string-join(%s, %s)' % (s, t) for s in ('()', '"a"', '("a", "b")', '("", "")', '("a", "", "c")', '//a', '(//a, //b)', '(1, 2)', '(1.5, true(), "x")', '(//d, "x")', '("a", "b", "c", "d")') for t in ('""', '","', '"段"', '", "', '()', '("a", "b")', '@n', '1')] + ['string-join(%s)' % s for s in ('()', '("a", "b")', '//a', '(1, 2)')]
    qs += ['concat(%s)' % ', '.join(rng.choice(args) for _ in range(n)) for n in (2, 3, 3, 4, 5, 6, 7) for _ in range(12)]
    ask(rep, pack(doc, qs if full else rng.sample(qs, min(len(qs), 8000)), [2], size=90), 'string_function_table')
    # every letter of the case tables
    cs = [c for c in list(range(0x20, 0x24f)) + list(range(0x370, 0x52f)) + [0x1e00, 0x1e01, 0x1e9e, 0xdf, 0x130, 0x131, 0x149, 0x1f0, 0xfb00, 0xfb01, 0x2160, 0x2170, 0x24b6, 0x24d0, 0xff21, 0xff41, 0x10400, 0x10428, 0x10a0, 0x10d0, 0x2c00, 0x2c30] if c != 0x22]
    qs = ['%s("%s")' % (f, chr(c)) for c in cs for f in ('upper-case', 'lower-case')]
    ask(rep, pack(doc, qs if full else rng.sample(qs, 700), [2], size=90), 'letters')
    # normalize-space: words are run together (pinned by a test of the library)
    qs = ['normalize-space(%s)' % a for a in ('""', '"a"', '" a "', '"\t\na\r "', '()', '"   "', '"é "', '@n', '" ab"')] + ['normalize-space(" a  b ")', 'normalize-space("a b")', '//a/normalize-space()']
    for _ in range(400 if full else 60):        # one word, with other blank-like characters in it
        w = ''.join(rng.choice('ab\u00a0\u3000\u2003\u0085\u2028\u000b\u000c\u1680\ufeff\u200b') for _ in range(rng.randint(0, 4)))
        qs.append('normalize-space("%s%s%s")' % (''.join(rng.choice(' \t\n\r') for _ in range(rng.randint(0, 2))), w, ''.join(rng.choice(' \t\n\r') for _ in range(rng.randint(0, 2)))))
    ask(rep, pack(doc, qs, [2]), 'normalize_space', keyof=lambda x, c, q: {'normalize-space(" a  b ")': 'normalize-space-1', 'normalize-space("a b")': 'normalize-space-2'}.get(q))
    def mk(g): return g.strfn(3) if g.rng.random() < .85 else [g.rng.choice(['contains', 'starts-with', 'ends-with', 'compare', 'codepoint-equal']), '('] + g.optstr(3) + [','] + g.optstr(3) + [')']
    ask(rep, randoms(rng, 1500 if full else 200, mk), 'random_strings')
    qs = ['%s("%s", "%s")' % (f, a, b) for a in STRORD for b in STRORD for f in ('compare', 'compare', 'codepoint-equal', 'contains', 'starts-with')] + ['%s(("%s", "%s"))' % (f, a, b) for a in STRORD for b in STRORD for f in ('max', 'min')]
    ask(rep, pack(doc, qs if full else rng.sample(qs, 900), [2], size=90), 'string_order')
    def rs(): return ''.join(rng.choice('aab b12é段𝄞\uffeeßA') for _ in range(rng.randint(0, 7)))
    qs = []
    for _ in range(6000 if full else 900):
        a = rs(); i = rng.randint(0, len(a)); b = a[i:i + rng.randint(0, 3)] if rng.random() < .7 else rs()
        f = rng.choice(two + ['substring', 'substring', 'translate', 'translate', 'string-join'])
        if f == 'substring': qs.append('substring(%s, %s%s)' % (lit(a), rng.choice([str(rng.randint(-3, 9)), '%d.%d' % (rng.randint(0, 6), rng.randint(0, 99))]), ', %s' % rng.choice([str(rng.randint(-2, 9)), '%d.%d' % (rng.randint(0, 5), rng.randint(0, 99))]) if rng.random() < .7 else ''))
        elif f == 'translate': qs.append('translate(%s, %s, %s)' % (lit(a), lit(rs()), lit(rs())))
        elif f == 'string-join': qs.append('string-join((%s), %s)' % (', '.join(lit(rs()) for _ in range(rng.randint(0, 4))), lit(rs()[:2])))
        else: qs.append('%s(%s, %s)' % (f, lit(a), lit(b)))
    ask(rep, pack(doc, qs, [2], size=90), 'random_string_arguments')

# ------------------------------------------------------------------ P18
def p18(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P18')
    doc = '<r n="k"><a>1</a><b>2</b></r>'
    qs = []
    for _ in range(900 if full else 70):
        a, b = near(rng); c = near(rng)[0]
        qs += ['map{%s: 1, %s: 2}(%s)' % (a, c, b), 'map:contains(map{%s: 1}, %s)' % (a, b), 'map:size(map{%s: 1, %s: 2})' % (a, b), 'map:size(map:remove(map{%s: 1, %s: 2}, %s))' % (a, c, b), 'map:put(map{%s: 1}, %s, 2)?(%s)' % (a, b, a)]
    ask(rep, pack(doc, qs, size=80), 'neighbouring_numbers')
    MAPS = ['map{}', 'map{"k": 1}', 'map{"a": 1, "b": (2, 3)}', 'map{1: "one", 2: "two"}', 'map{1: "i", "1": "s"}', 'map{1.0: "d"}', 'map{1e0: "e"}', 'map{true(): 1, false(): 0}', 'map{"m": map{"k": 5}}', 'map{"e": ()}', 'map{"x": [1, 2]}', 'map{"a": 1, "a": 2}', 'map{1: 1, 1.0: 2}', 'map{number("NaN"): 1}', 'map{"": 0}', 'map{@n: 7}', 'map{"f": function($x) { $x + 1 }}', 'map{(1, 2): 3}', 'map{(): 3}', 'map{"k": //a, "l": //b}', 'map{"1": 1, 1: 2, true(): 3, "true": 4}', 'map{[1]: 2}', 'map{"a": 1, "b": 2, "c": 3, "d": 4}', 'map{0e0: 1, "0": 2}']
    KEYS = ['"k"', '"a"', '"b"', '1', '2', '"1"', '1.0', '1e0', 'true()', 'false()', '""', '"m"', '"e"', '"x"', 'number("NaN")', '@n', '()', '("a", "b")', '3', '"f"', '0', '-0e0', '1.5', '"true"', '[1]', '//a', '1.0000001', '"zz"', '"d"']
    qs = []
    for m in MAPS:
        qs += [m, 'map:size(%s)' % m, 'map:keys(%s)' % m, '%s?*' % m, 'count(%s?*)' % m, 'count(map:keys(%s)) = map:size(%s)' % (m, m), 'every $k in map:keys(%s) satisfies map:contains(%s, $k)' % (m, m), 'for $k in map:keys(%s) return %s($k)' % (m, m), 'let $m := %s return for $k in map:keys($m) return (map:get($m, $k), $m?($k), $m($k))' % m, 'count(%s)' % m, '(%s, %s)?*' % (m, m), '%s instance of map(*)' % m, 'count((%s)?("a", "b", 1))' % m, '%s?k' % m, '%s?1' % m, '%s?a' % m, '%s?m?k' % m, '%s?x?2' % m, 'data(%s)' % m, 'string(%s)' % m, 'boolean(%s)' % m]
        for k in KEYS: qs += ['map:get(%s, %s)' % (m, k), '%s(%s)' % (m, k), '%s?(%s)' % (m, k), 'map:contains(%s, %s)' % (m, k), 'count(%s(%s))' % (m, k)]
    ARR = ['[]', '[1]', '[1, 2, 3]', '[(1, 2), 3]', '[()]', '[(), ()]', '[[1, 2], [3]]', '["a", 1.5, true()]', 'array{}', 'array{1, 2, 3}', 'array{()}', 'array{(1, 2), 3}', 'array{[1], 2}', '[//a, //b]', '[map{"k": 1}]', '[[], [[]], [()]]', 'array{//a, 1}', '[1 to 3]', 'array{1 to 3}', '[function($x) { $x }]', '[[[1]], (2, [3, (4, 5)])]', 'array{array{1}}']
    IDX = ['1', '2', '3', '0', '-1', '4', '1.0', '1e0', '"1"', '()', '(1, 2)', 'true()', '9223372036854775807', '//a', '@n', '(3, 1)', '1.5', '[1]']
    for a in ARR:
        qs += [a, 'array:size(%s)' % a, '%s?*' % a, 'array:flatten(%s)' % a, 'count(%s?*)' % a, 'for $i in 1 to array:size(%s) return %s($i)' % (a, a), 'let $a := %s return for $i in 1 to array:size($a) return ($a?($i), array:get($a, $i))' % a, '(%s, %s)?1' % (a, a), '%s instance of array(*)' % a, 'array:flatten((%s, 7, %s))' % (a, a), 'count(%s)' % a, '%s?1' % a, '%s?2' % a, '%s?4' % a, '%s?0' % a, '%s?*?*' % a, '%s?1?1' % a, 'data(%s)' % a, 'string-join(%s?*, ",")' % a, '%s?k' % a, 'boolean(%s)' % a, '%s = 1' % a, '%s ! 1' % a, '%s?3?2?1' % a, '%s => array:size()' % a]
        for i in IDX: qs += ['array:get(%s, %s)' % (a, i), '%s(%s)' % (a, i), '%s?(%s)' % (a, i)]
    qs += ['(1, 2)?1', '"a"?k', '//a?k', '()?1', '()?*', 'map{}?*', '(map{"k": 1}, map{"k": 2})?k', '(map{"k": 1}, [5])?1', '([1, 2], [3, 4])?2', '[1, 2](1)', 'map{"k": [1, map{"z": (7, 8)}]}?k?2?z', '[1, 2, 3]?(1 to 2)', '(map{"k": 1}, [5])?k', 'map:get(1, 2)', 'array:get(map{}, 1)', 'array:size(map{})', 'map:size([])', 'array:size(1)', 'array:flatten(map{"a": [1]})', 'array:flatten((1, [2, [3, (4, [5])]], "x"))', 'map:keys(())', 'map:contains((), 1)', 'array:size(())', 'array:flatten(())', '[1, 2]?*[2]', '(map{"k": (1, 2)}?k)[2]', 'map{"k": 1}("k", 2)', '[1]()', 'map{}()', '[1]?1[1]']
    ask(rep, pack(doc, qs if full else rng.sample(qs, min(len(qs), 4500)), [2], size=90), 'map_and_array_table')
    def mk(g):
        k = g.rng.random()
        if k < .6: return g.lookup(3)
        if k < .8: return g.ex('map', 3) + ['?', '*'] if g.rng.random() < .5 else g.map(3)
        return g.arr(3)
    ask(rep, randoms(rng, 1300 if full else 200, mk), 'random_maps_and_arrays')
    # many keys of all types: agreement of all ways to read
    keys = ['1', '2', '3', '"1"', '"2"', '1.0', '2.0', '2.5', '1e0', '3e0', 'true()', '"true"', '"a"', '"b"', '"A"', '""', '0', '-1', '-1.0', '0e0', 'number("NaN")', '9007199254740993', '9007199254740992e0', '"é"']
    qs = []
    for _ in range(5000 if full else 700):
        ks = rng.sample(keys, rng.randint(0, 5)); m = 'map{%s}' % ', '.join('%s: %s' % (k, rng.choice(['1', '(2, 3)', '()', '"v"', '[4]', '//a', str(i)])) for i, k in enumerate(ks))
        k = rng.choice(ks or keys) if rng.random() < .6 else rng.choice(keys)
        qs.append(rng.choice(['%s(%s)', 'map:get(%s, %s)', 'map:contains(%s, %s)', '%s?(%s)', '(map:size(%s), %s)', '(map:keys(%s), %s)']) % (m, k))
    ask(rep, pack(doc, qs, [2], size=90), 'random_keys')

# ------------------------------------------------------------------ P19
TVALS = ['()', '1', '-1', '0', '1.5', '1.0', '1e0', '1.5e300', 'number("NaN")', '(1 div 0e0)', '"a"', '""', '"1"', '" 1 "', '"1.5"', '"1e2"', '"true"', '"false"', '"0"', '"yes"', '"NaN"', '"INF"', '"-INF"', '"+1"', '"-1.50"', '"1."', '".5"', '"."', '"e"', '"1e"', '"0x1"', '"1 2"', '"TRUE"', '"9223372036854775807"', '"9223372036854775808"', '"1_0"', '"+INF"', '"inf"', '"１"', 'true()', 'false()', '(1, 2)', '(1, "a")', '("a", "b")', '//a', '(//a)[1]', '@n', '/', '//text()', '(//comment())[1]', '//processing-instruction()', 'map{}', 'map{1: "a"}', 'map{"a": (1, 2)}', '[]', '[1]', '[1, "a"]', '[(1, 2)]', 'count#1', 'concat#3', 'function($x) { $x }', 'function($x as xs:integer) as xs:string { string($x) }', 'contains(?, "a")', '9223372036854775807', '-9223372036854775807', '1e19', '-0e0', '0.0', '1e18', '-1.9', '(//a, 1)', '9.3e18', '0.9', '"-"', '"--1"', '"\t1\n"']
TY = ['xs:integer', 'xs:decimal', 'xs:double', 'xs:string', 'xs:boolean', 'xs:anyAtomicType', 'xs:numeric', 'xs:untypedAtomic', 'xs:anyURI', 'item()', 'node()', 'element()', 'attribute()', 'text()', 'comment()', 'processing-instruction()', 'element(a)', 'element(b)', 'attribute(n)', 'map(*)', 'array(*)', 'function(*)', 'map(xs:integer, xs:string)', 'map(xs:string, xs:integer+)', 'map(xs:anyAtomicType, item()*)', 'array(xs:integer)', 'array(xs:integer+)', 'array(item())', 'function(item()*) as xs:integer', 'function(xs:integer) as xs:string', 'function(item()) as item()*', 'function(xs:string?) as xs:boolean?', 'function() as item()', 'xs:nope', 'xs:int', 'integer', '(xs:integer)', '(map(*))', 'empty-sequence()', 'map(*)', 'element(*, xs:untyped)', 'function(xs:anyAtomicType?) as xs:boolean', 'function(item()*) as item()', 'function(xs:anyAtomicType) as item()*', 'array(array(*))', 'xs:anySimpleType', 'xs:anyType', 'xs:float', 'xs:date']
def p19(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P19')
    doc = '<r n="1"><a>2</a><!--c--><?p i?></r>'
    qs = ['%s instance of %s%s' % (v, t, o) for v in TVALS for t in TY for o in ('', '?', '*', '+') if not (o and t.startswith('empty'))]
    if not full: qs = rng.sample(qs, 5500)
    ask(rep, pack(doc, qs, [2], size=90), 'instance_table')
    CT = ['xs:integer', 'xs:decimal', 'xs:double', 'xs:string', 'xs:boolean', 'xs:anyAtomicType', 'xs:anyURI', 'xs:untypedAtomic', 'xs:nope', 'integer', 'xs:int']
    qs = []
    for v in TVALS:
        for t in CT[:5] if not full else CT:
            for o in ('', '?'): qs += ['%s cast as %s%s' % (v, t, o), '%s castable as %s%s' % (v, t, o)]
    ask(rep, pack(doc, qs if full else rng.sample(qs, min(len(qs), 1500)), [2], size=90), 'cast_table')
    def numtext():
        k = rng.random()
        s = rng.choice(['', '', '-', '+']) + str(rng.randint(0, 10 ** rng.randint(0, 20)))
        if k < .3: pass
        elif k < .6: s += '.' + str(rng.randint(0, 10 ** 6))
        elif k < .8: s += rng.choice('eE') + rng.choice(['', '-', '+']) + str(rng.randint(0, 25))
        if rng.random() < .15: i = rng.randint(0, len(s)); s = s[:i] + rng.choice([' ', '-', '.', 'e', '_', ',', '+']) + s[i:]
        return rng.choice(['', '', ' ', '\t']) + s + rng.choice(['', '', ' ', '\n'])
    qs = []
    for _ in range(5000 if full else 700): qs.append('"%s" %s as %s' % (numtext(), rng.choice(['cast', 'castable', 'cast']), rng.choice(TYPES)))
    for _ in range(2500 if full else 400):
        n = rng.choice(NUMS[:34]); a, b = rng.choice(TYPES), rng.choice(TYPES)
        qs.append('(%s cast as %s) %s as %s' % (n, a, rng.choice(['cast', 'castable']), b))
    for _ in range(20000 if full else 1500):      # any characters
        al = rng.choice(['1.eE+-', '0123456789.e', '15.e -+', 'INFNaN+- ', 'truefalse10 ', '1_,xef.', '9\u0661\u00a01 .', '1 \t\n\r.e5'])
        x = ''.join(rng.choice(al) for _ in range(rng.randint(0, 7)))
        if rng.random() < .15: x = rng.choice(['INF', '-INF', '+INF', 'NaN', 'true', 'false', 'TRUE', '1', '0', 'Infinity', 'inf', 'nan', '-NaN', '1e', '.', '-', '+', '--1', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '1e18', '1.9e0']) + rng.choice(['', ' ', '', '\n'])
        qs.append(rng.choice(['"%s" cast as xs:integer', '"%s" cast as xs:double', '"%s" cast as xs:decimal', '"%s" cast as xs:boolean', '"%s" castable as xs:integer', '"%s" castable as xs:decimal', 'number("%s")', '"%s" cast as xs:integer?', '1 + number("%s")', '"%s" castable as xs:boolean', '"%s" castable as xs:double', '("%s", 1) = 1']) % x)
    ask(rep, pack(doc, qs, [2], size=90), 'numeric_texts')
    def mk(g):
        k = g.rng.random()
        if k < .5: return g.sub('any', 2) + ['instance', 'of'] + g.seqtype(2)
        if k < .65: return g.sub('fn', 2) + ['instance', 'of'] + g.seqtype(2)
        return g.sub('item', 2) + [g.rng.choice(['cast', 'castable']), 'as', g.rng.choice(TYPES)] + (['?'] if g.rng.random() < .3 else [])
    ask(rep, randoms(rng, 1200 if full else 190, mk), 'random_types')

    # every function of the library against its own signature and against near variants
    OCC = ('', '?', '*', '+')
    def occ(t): return (t[:-1], t[-1]) if t[-1] in '?*+' else (t, '')
    def near(t):
        b, o = occ(t)
        nb = {'xs:string': ['xs:anyAtomicType', 'xs:integer', 'item()', 'xs:anyURI'], 'xs:integer': ['xs:decimal', 'xs:double', 'xs:numeric', 'xs:string', 'item()'], 'xs:double': ['xs:decimal', 'xs:anyAtomicType', 'xs:integer'], 'xs:boolean': ['xs:anyAtomicType', 'xs:string'], 'item()': ['node()', 'xs:anyAtomicType', 'xs:string', 'element()'], 'node()': ['element()', 'item()', 'text()'], 'xs:anyAtomicType': ['xs:string', 'item()', 'xs:anySimpleType'], 'xs:anyURI': ['xs:string'], 'map(*)': ['array(*)', 'map(xs:string, item()*)', 'function(*)', 'map(xs:anyAtomicType, item()*)'], 'array(*)': ['map(*)', 'array(xs:integer)', 'function(*)', 'array(item()*)']}.get(b, ['item()', 'xs:decimal'])
        return [b + q for q in OCC if q != o] + [x + o for x in nb]
    qs = []
    for n, ar, ps, r in fn_sigs():
        qs.append('%s#%d instance of function(%s) as %s' % (n, ar, ', '.join(ps), r))
        qs.append('%s#%d instance of function(%s) as item()*' % (n, ar, ', '.join(ps + ['item()'])))
        if ar: qs.append('%s#%d instance of function(%s) as item()*' % (n, ar, ', '.join(ps[1:])))
        for v in near(r): qs.append('%s#%d instance of function(%s) as %s' % (n, ar, ', '.join(ps), v))
        for i in range(ar):
            for v in near(ps[i]): qs.append('%s#%d instance of function(%s) as %s' % (n, ar, ', '.join(ps[:i] + [v] + ps[i + 1:]), r))
            qs.append('%s(%s) instance of function(%s) as %s' % (n, ', '.join('?' if j == i else '()' for j in range(ar)), ps[i], r))
    ask(rep, pack(doc, qs, [2], size=90), 'library_signatures')
    # the subtype relation, through parameter and return types of functions that are never called
    qs = []
    def ty(d=0):
        b = rng.choice(SUBT)
        if d < 2 and rng.random() < .22: b = rng.choice(['array(%s)' % ty(d + 1), 'map(%s, %s)' % (rng.choice(['xs:string', 'xs:integer', 'xs:decimal', 'xs:anyAtomicType', 'xs:numeric']), ty(d + 1)), 'function(%s) as %s' % (', '.join(ty(d + 1) for _ in range(rng.randint(0, 2))), ty(d + 1))])
        return b if b.startswith('empty') else b + ('' if b.startswith('function(') and b != 'function(*)' else rng.choice(['', '', '?', '*', '+']))
    def rel(t):
        """A type that is often a neighbour of t."""
        b, o = occ(t)
        m = re.match(r'(function|map|array)\((.*)$', b)
        if m and '*)' not in b[:12] and rng.random() < .8:      # one component changed
            ps, rest = split_args(b[len(m.group(1)):])
            if m.group(1) == 'function':
                i = rng.randint(0, len(ps)); r = rest[len(' as '):]
                if o: r += o; o = ''
                if rng.random() < .06: ps.append(ty(2))
                elif i == len(ps): r = rel(r)
                else: ps[i] = rel(ps[i])
                return 'function(%s) as %s' % (', '.join(ps), r)
            i = rng.randrange(len(ps))
            ps[i] = rng.choice(KEYT) if m.group(1) == 'map' and i == 0 else rel(ps[i])
            return '%s(%s)%s' % (m.group(1), ', '.join(ps), o)
        if rng.random() < .35: return t
        if rng.random() < .45: return b + rng.choice(OCC) if not b.startswith(('empty', 'function(')) or b == 'function(*)' else t
        if rng.random() < .5:
            for fam in SUBF:
                if b in fam: return rng.choice(fam) + (o if rng.random() < .6 else rng.choice(OCC))
        return ty()
    for _ in range(9000 if full else 1300):
        a = ty(); b = rel(a)
        if rng.random() < .5: a, b = b, a
        k = rng.random()
        if k < .5: qs.append('function() as %s { () } instance of function() as %s' % (a, b))
        elif k < .8: qs.append('function($x as %s) { () } instance of function(%s) as item()*' % (a, b))
        else: qs.append('function($x as %s, $y as %s) as %s { () } instance of function(%s, %s) as %s' % (a, b, a, b, a, b) if rng.random() < .5 else 'function($x, $y as %s) { () } instance of function(item()*, %s) as item()*' % (b, a))
    for a in SUBT[:-1] + ['empty-sequence()']:
        for b in SUBT[:-1] + ['empty-sequence()']:
            if full or rng.random() < .22: qs.append('function() as %s { () } instance of function() as %s' % (a, b))
    for _ in range(3000 if full else 420):      # compound types that differ in one component
        n = rng.randint(1, 3)
        a = rng.choice(['function(%s) as %s' % (', '.join(ty(1) for _ in range(n)), ty(1)), 'map(%s, %s)' % (rng.choice(KEYT), ty(1)), 'array(%s)' % ty(1), 'function(%s) as %s' % (', '.join(ty(1) for _ in range(n)), ty(1))]); b = rel(a)
        if rng.random() < .5: a, b = b, a
        qs.append('function() as %s { () } instance of function() as %s' % (a, b) if rng.random() < .6 else 'function($x as %s) { () } instance of function(%s) as item()*' % (b, a))
    ask(rep, pack(doc, qs, [2], size=90), 'subtypes')
    # maps and arrays with members of several types, against types that fit all members but one
    MEM = {'xs:integer': ['1', '2', '-3'], 'xs:decimal': ['1.5', '2.0'], 'xs:double': ['1e0', 'number("NaN")'], 'xs:string': ['"a"', '""'], 'xs:boolean': ['true()', 'false()'], 'element()': ['(//a)[1]', '/r'], 'attribute()': ['/r/@n'], 'text()': ['//text()'], 'map(*)': ['map{}', 'map{1: 2}'], 'array(*)': ['[]', '[1]'], 'function(*)': ['count#1', 'map{}', '[2]'], 'node()': ['/r', '/r/@n', '(//a)[1]']}
    def member(t, o): return rng.choice(MEM[t]) if o == '' or o == '?' and rng.random() < .6 else '()' if o == '?' or o == '*' and rng.random() < .4 else '(%s)' % ', '.join(rng.choice(MEM[t]) for _ in range(rng.randint(1, 3)))
    qs = []
    for _ in range(5000 if full else 700):
        n = rng.randint(0, 4); t = rng.choice(list(MEM)); o = rng.choice(OCC); kt = rng.choice(KEYT)
        vals = [member(t, o) for _ in range(n)]; odd = rng.randrange(n) if n and rng.random() < .6 else -1
        if odd >= 0 and rng.random() < .6: t2 = rng.choice(list(MEM)); vals[odd] = member(t2, rng.choice(OCC))
        keys = rng.sample({'xs:string': ['"a"', '"b"', '"c"', '"d"', '""'], 'xs:integer': ['1', '2', '3', '0'], 'xs:decimal': ['1', '2.5', '3', '0.5'], 'xs:numeric': ['1', '2.5', '3e0', '0.5'], 'xs:boolean': ['true()', 'false()'], 'xs:double': ['1e0', '2e0', '3.5e0', '0e0'], 'xs:anyAtomicType': ['1', '"a"', 'true()', '2.5']}[kt], min(n, 2 if kt == 'xs:boolean' else 4))
        if keys and rng.random() < .4: keys[rng.randrange(len(keys))] = rng.choice(['"zz"', '77', '7.5', '9e0', 'true()'])
        v = 'map{%s}' % ', '.join('%s: %s' % kv for kv in zip(keys, vals)) if rng.random() < .65 else '[%s]' % ', '.join(vals)
        ot = o if rng.random() < .7 else rng.choice(OCC)
        tt = t if rng.random() < .8 else rng.choice(list(MEM) + ['item()', 'xs:anyAtomicType', 'xs:numeric'])
        typ = 'map(%s, %s%s)' % (kt if rng.random() < .8 else rng.choice(KEYT), tt, ot) if v[0] == 'm' else 'array(%s%s)' % (tt, ot)
        if rng.random() < .3:
            v, typ = rng.choice([('[%s]' % v, 'array(%s)' % typ), ('map{1: %s}' % v, 'map(xs:integer, %s)' % typ), ('(%s, %s)' % (v, v), typ + '+'), ('map{1: %s, 2: ()}' % v, 'map(xs:integer, %s?)' % typ), ('[%s, 1]' % v, 'array(%s)' % typ)])
        qs.append('%s instance of %s' % (v, typ))
    ask(rep, pack(doc, qs, [2], size=90), 'member_types')
KEYT = ['xs:string', 'xs:integer', 'xs:decimal', 'xs:numeric', 'xs:boolean', 'xs:double', 'xs:anyAtomicType']
def split_args(s):
    """'(a, b(c, d)) rest' -> ['a', 'b(c, d)'], ' rest'"""
    ps, d, cur = [], 0, ''
    for k, c in enumerate(s):
        d += {'(': 1, ')': -1}.get(c, 0)
        if d == 0: break
        if c == '(' and d == 1: continue
        if c == ',' and d == 1: ps.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): ps.append(cur.strip())
    return ps, s[k + 1:]
SUBF = [['xs:integer', 'xs:decimal', 'xs:numeric', 'xs:anyAtomicType', 'xs:anySimpleType', 'item()', 'xs:double'], ['xs:string', 'xs:anyURI', 'xs:anyAtomicType', 'item()', 'xs:untypedAtomic'], ['element()', 'element(*)', 'element(a)', 'element(b)', 'element(a, xs:untyped)', 'element(a, xs:untyped?)', 'element(*, xs:anyType)', 'element(*, xs:anyType?)', 'element(a, xs:anyType?)', 'element(a, xs:anyType)', 'node()', 'item()', 'element(*, xs:untyped?)'], ['attribute()', 'attribute(*)', 'attribute(a)', 'attribute(a, xs:untypedAtomic)', 'attribute(*, xs:untypedAtomic)', 'attribute(*, xs:anyType)', 'attribute(a, xs:anySimpleType)', 'node()', 'item()', 'element(a)'], ['processing-instruction()', 'processing-instruction(a)', 'processing-instruction("a")', 'processing-instruction(b)', 'node()', 'comment()', 'text()', 'item()'], ['map(*)', 'map(xs:string, item()*)', 'map(xs:anyAtomicType, item()*)', 'map(xs:integer, xs:integer)', 'map(xs:integer, xs:string+)', 'map(xs:decimal, xs:decimal?)', 'function(*)', 'item()', 'array(*)'], ['array(*)', 'array(item()*)', 'array(item())', 'array(xs:integer)', 'array(xs:decimal?)', 'array(xs:integer+)', 'array(array(*))', 'array(array(xs:integer))', 'function(*)', 'item()', 'map(*)'], ['function(*)', 'item()', 'map(*)', 'array(*)']]
SUBT = sorted({t for f in SUBF for t in f}) + ['xs:boolean', 'function(xs:integer) as xs:string', 'function(item()) as item()*', 'function() as xs:integer', 'function(xs:decimal?) as xs:string?', 'function(function(*)) as item()', 'empty-sequence()']
def fn_sigs():
    """(name, arity, parameter types, return type) of every function in FnSigs.tla."""
    import re
    out = []
    for n, ar, sig in re.findall(r'n \|-> "([^"]+)", ar \|-> (\d+), sig \|-> "([^"]+)"', open(core.VERIF + '/spec/FnSigs.tla').read()):
        depth, k = 0, len('function')
        for k in range(len('function'), len(sig)):
            depth += {'(': 1, ')': -1}.get(sig[k], 0)
            if depth == 0: break
        inner, ps, d, cur = sig[len('function('):k], [], 0, ''
        for c in inner:
            d += {'(': 1, ')': -1}.get(c, 0)
            if c == ',' and d == 0: ps.append(cur.strip()); cur = ''
            else: cur += c
        if cur.strip(): ps.append(cur.strip())
        assert len(ps) == int(ar), (n, ar, ps)
        out.append((n, int(ar), ps, sig[k + 1:].strip()[3:]))
    return out

# ------------------------------------------------------------------ P20
def p20(rep, tier, rng):
    full = tier == 'thorough'
    kinds = ['nodes', 'nodes', 'nodes', 'seq', 'any', 'num', 'str', 'bool', 'map', 'arr', 'fn', 'lookup']
    def mk(g):
        k = g.rng.choice(kinds)
        if g.rng.random() < .2: return g.par(commas([g.single('nodes', 2), g.single('any', 1), g.single('nodes', 1)]))
        return getattr(g, k)(3)
    ask(rep, randoms(rng, 2200 if full else 330, mk, docsize=(3, 18)), 'random_queries', full=True)
    # failing, mixed and order-sensitive ones on one document
    doc = '<r n="0" m="1"><a n="1">x<b/>y</a><!--c--><?p i?><a><b n="2"/></a></r>'
    qs = ['(//b, //a)', '(//a, 1, //b)', '//a | //b', '1', '()', '//zz', '1 div 0', '//a[', '$x', 'reverse(//node())', '(//a, //a)', '//@*', '(1, 2, "x")', 'for $x in //a return $x/b', 'map{"k": //a}', '[//a]', '[//a]?1', '//a/@n', '/', '.', '//text()', '("a", //a, 2.5, 3e0, true())', '//a ! (., 1)', '//comment() | //processing-instruction()', 'count#1', '//*[last()]', '(//*)[0]', '//a/1 div 0', 'tail(//a)', '(//b, 1 div 0)', 'foo()', '', '//', '(//@n)[3]', 'let $x := //a return ($x, $x[1])', '"<a/>"', '(//a)[1] is (//a)[2]', '(/, //@n)', '//a/(b, ../a)', 'string-join(//text(), "-")', '(map{1: 2}, [1, 2], "x")', '1.0', '-0e0', '("", "a""b")', 'some $x in //a satisfies $x/b', '//a[2]/preceding::node()', '(1, (2, (3)))', '//a/..', 'root(//b[1])', '(//text())[last()]']
    ask(rep, pack(doc, qs, range(1, 16)), 'fixed_queries', full=True)
    # several queries in one process on the same document, then the first again: no state stays behind
    g = []
    for _ in range(150 if full else 30):
        d = Doc(rng, rng.randint(4, 14)); qs = []
        for _ in range(6): qs.append(render(getattr(Gen(rng, d.values, .15), rng.choice(kinds))(3)))
        g.append((d.xml, rng.randint(1, 20), qs + qs[::-1]))
    ask(rep, g, 'repeated_queries', full=True)
    # each_node with a callback that edits the document: the nodes are those selected before the first call
    dom_checks.mut_run(rep, rng, 900 if full else 80, ('state', 'roots', 'panic', 'visited'), maxnodes=50, steps=9, eqs=dom_checks.EACH)

# ------------------------------------------------------------------ P21
def total_run(rep, reqs, label, budget=20, keyof=None):
    """reqs: fields of driver requests.  Every call must end in a value or an error."""
    reqs = list(dict.fromkeys(reqs))
    obs = core.run([core.request(*r) for r in reqs], budget)
    again = [(i, q) for i, o in enumerate(obs) if core.bad(o) and reqs[i][0] in ('xp', 'xpf') and len(reqs[i]) > 4 for q in range(3, len(reqs[i]))][:600]
    redo = core.run([core.request(*(reqs[i][:3] + (reqs[i][q],))) for i, q in again], budget) if again else []
    sub = {}
    for (i, q), o in zip(again, redo): sub.setdefault(i, []).append((q, o))
    end = lambda o: 'hang' if o.get('hang') else 'death' if o.get('crash') else 'panic' if o.get('panic') else 'value' if o.get('ok', True) else 'internal error' if o.get('c') == 'internal' else 'error'
    ses, idx = [], []
    for i, (r, o) in enumerate(zip(reqs, obs)):
        if o.get('skipped'): continue
        if i in sub: calls = [('query', end(x) if core.bad(x) else end(x['res'][0]) if 'res' in x else 'error', r[:3] + (r[q],)) for q, x in sub[i]]
        elif core.bad(o): calls = [(r[0], end(o), r)]
        elif 'res' in o: calls = [('query', end(x), r[:3] + (q,)) for q, x in zip(r[3:], o['res'])]
        elif 'evs' in o: calls = [('edit', 'panic' if e.get('panic') else 'value', r) for e in o['evs']]
        elif 'toks' in o: calls = [('token', 'value', r)] * len(o['toks']) + [('token', 'value' if o['end'] == 'eof' else 'error', r)]
        else: calls = [('document', end(o), r)]
        ses.append({'calls': [{'op': a, 'end': b} for a, b, c in calls]}); idx.append(calls)
    n = 0
    for k in range(0, len(ses), 4000):
        r = core.validate('TraceTotal', ses[k:k + 4000])
        for kind, s, l, what in r.marks:
            op, e, rq = idx[k + s - 1][l]
            rep.violation('%s %s: %s' % (op, small(str(rq)), {'hang': 'no answer within %d s' % budget, 'death': 'the process died', 'panic': 'panic'}.get(e, e)),
                          {'request': list(rq), 'end': e}, keyof and keyof(rq))
        rep.add(states=r.distinct, transitions=max(0, r.generated - len(ses[k:k + 4000])))
    n = sum(len(c) for c in idx)
    rep.add(traces_validated_against_impl=len(ses), calls=n, errors=sum(1 for c in idx for x in c if x[1] == 'error'), **{label: n})
    for c in idx[:: max(1, len(idx) // 2)][:2]: rep.sample({label: small(str(c[0][2]), 160), 'end': c[0][1]})

RAW = ['<', '>', '/', '?', '!', '-', '[', ']', '&', ';', '#', 'x', '=', '"', "'", ' ', '\n', '\r', '\t', 'a', 'b', ':', '1', '<!--', '-->', '<![CDATA[', ']]>', '<?', '?>', '<!', '<!DOCTYPE', '&#', '&#x', '&lt;', '&amp', '\u00e9', '\u6bb5', '\U0001d11e', '\ufeff', '\u2028', '\x85', '\x01', '\x00', '.', '_', '</', '/>', '<a', '<a>', '</a>', 'xml', '<?xml', '\ufffd', '\u0301', '(', ')', '$', '@', '*', '{', '}', '|', '+', ',']
NEST = [('(', '1', ')'), ('-', '1', ''), ('+', '1', ''), ('*[', '1', ']'), ('if (1) then ', '1', ' else 2'), ('if (', '1', ') then 1 else 2'), ('not(', '1', ')'), ('[', '1', ']'), ('array{', '1', '}'), ('map{1:', '1', '}'), ('for $x in ', '1', ' return $x'), ('for $x in 1 return ', '$x', ''),
        ('let $x := ', '1', ' return $x'), ('let $x := 1 return ', '$x', ''), ('some $x in ', '1', ' satisfies 1'), ('some $x in 1 satisfies ', '1', ''), ('(: ', '', ' :)1'), ('(', '1', ',2)'), ('(1,', '2', ')'), ('./', '.', ''), ('.//', '.', ''), ('', '1', ' + 1'), ('', '1', ' - 1'), ('', '1', ', 1'), ('', '1', ' => count()'),
        ('', '.', '[1]'), ('', '1', ' ! .'), ('1 ! (', '1', ')'), ('', '1', ' | 1'), ('', '*', '/*'), ('', '"a"', ' || "b"'), ('function(){', '1', '}'), ('function(){', '1', '}()'), ('1 instance of (', 'xs:integer', ')'), ('1 instance of array(', 'xs:integer', ')'), ('1 instance of map(xs:string, ', 'xs:integer', ')'), ('1 instance of function(', 'xs:integer', ') as item()'),
        ('function($x as ', 'item()', '){1}'), ('1 instance of function(*) and ', '1', ''), ('map{1:1}?(', '1', ')'), ('', '[1]', '?1'), ('', '[1]', '(1)'), ('ancestor::node()[', '1', ']'), ('..', '', '/..'), ('../', '..', ''), ('(', '', ')'), ('1 = (', '1', ')'), ('1 to (', '1', ')'), ('concat("a", ', '1', ')'), ('concat(?, ', '1', ')'), ('1 cast as xs:string = ', '1', ''), ('@', 'a', ''), ('$', 'x', ''), ('a:', 'a', ''), ('"', '', ''), ("'", '', ''), ('1', '', ''), ('1.', '', ''), ('1e', '1', ''), ('a', '', ''), (':', '', ''), ('?', '', ''), ('!', '', ''), ('=', '', '')]
LONG = ['<a>' + 'x' * 60000 + '</a>', '<a b="' + 'y&lt;' * 12000 + '"/>', '<' + 'n' * 30000 + '/>', '<a ' + ' '.join('a%d="%d"' % (i, i) for i in range(600)) + '/>', '<a>' + '<b/>' * 3000 + '</a>', '<a>' + '&amp;' * 12000 + '</a>', '<!--' + '-' * 30000 + '-->', '<!--' + '- ' * 15000, '<a><![CDATA[' + ']' * 30000 + ']]></a>', '<?p ' + '?' * 30000 + '?>', '<!D ' + '[' * 3000 + ']' * 3000 + '>', '<!D ' + '<' * 3000, '<a>' + '&' * 30000 + '</a>', '<a>' + '&#' * 15000 + '</a>', '<a>&' + 'a' * 30000 + ';</a>', '<a>&#' + '9' * 30000 + ';</a>', '<a>&#x' + 'f' * 30000 + ';</a>', '\r' * 30000 + '<a/>', '<a' + ' ' * 30000 + '/>', '<a' + '\n' * 30000, '<' * 30000, '>' * 30000, '</' * 10000, '<a>' * 1500, '</a>' * 3000, '"' * 30000, '<a b=' + '"' * 30001 + '>', '<a ' + 'b' * 30000, '<a b' + '=' * 30000 + '>', '<?' * 10000, '<!' * 10000, '<![' * 10000, '<!-' * 10000, '\x00' * 1000]
DEEPKEY = {'(' * 60000 + '1' + ')' * 60000: 'nesting-60000'}
def p21(rep, tier, rng):
    full = tier == 'thorough'
    # --- documents: every beginning of rich ones, noise, damage, size
    g = gen_xml
    docs = []
    for _ in range(120 if full else 22):
        d = g.document(rng, g.Cfg(maxnodes=9, refs=.4, misc=.5, depth=3))
        docs += [d[:i] for i in range(len(d))] + [d[:i] + rng.choice(RAW) + d[i:] for i in range(0, len(d), 2)] + [d[:i] + d[i + 1:] for i in range(0, len(d), 2)]
    for _ in range(30000 if full else 5000): docs.append(''.join(rng.choice(RAW) for _ in range(rng.choice([1, 2, 3, 5, 8, 15, 30]))))
    for _ in range(9000 if full else 1500): docs.append(g.broken(rng, g.document(rng, g.Cfg(maxnodes=8, refs=.3))))
    docs += [a + b for a in RAW for b in RAW] + ['<a b="' + a + b for a in RAW for b in RAW[:40]] + ['<a>&' + a + b for a in RAW for b in RAW[:40]]
    total_run(rep, [('sax', d) for d in docs + LONG], 'tokenised_texts')
    total_run(rep, [('dom', d) for d in (docs if full else rng.sample(docs, min(len(docs), 6000)))], 'document_texts')
    total_run(rep, [('xp', d, 1, 'count(//node())', 'string(.)', '//@*[last()]', 'name(/*)') for d in LONG + [a * n + b * n for n in (60, 250) for a, b in (('<a>', '</a>'), ('<a b="1">t', '</a>'), ('<a><b/>', 'x</a>'))]], 'large_documents')
    # --- expressions: every beginning, noise, damage, depth, size, in several contexts
    doc = '<r n="1" xml:lang="en"><a>1<b m=" 2 "/></a>t<!--c--><?p i?><b n="2"><a/></b></r>'
    kinds = ['nodes', 'num', 'int', 'str', 'bool', 'seq', 'map', 'arr', 'fn', 'lookup', 'compare', 'quant', 'arrow', 'strfn', 'seqfn', 'nums']
    def some(d, wrong):
        gn = Gen(rng, ['1', 'x'], wrong); k = rng.choice(kinds)
        return gn.ex(k, d) if rng.random() < .7 else getattr(gn, k)(d)
    qs = []
    for _ in range(500 if full else 70):
        q = render(some(3, .1), rng, rng.choice([0, .2]))[:220]; qs += [q[:i] for i in range(len(q))] + [q[i:] for i in range(1, len(q), 2)]
    for _ in range(20000 if full else 3500): qs.append(''.join(rng.choice(RAW) for _ in range(rng.choice([1, 2, 3, 5, 8, 15]))))
    for _ in range(30000 if full else 5500): qs.append(rng.choice(['', ' ']).join(rng.choice(PUNCT) for _ in range(rng.choice([2, 3, 4, 5, 6, 8, 12]))))
    for _ in range(30000 if full else 5500):        # sound grammar, unsound types: any expression in any place
        q = render(some(3, .6), rng, 0)
        if len(q) < 500: qs.append(q)
    qs += ['%s(%s)' % (f, ', '.join(a)) for f in FUNCS for n in range(0, 4) for a in ([rng.choice(ODD) for _ in range(n)] for _ in range(10 if full else 5))]
    qs += ['%s#%s' % (f, n) for f in FUNCS for n in (0, 1, 2, 3, 99)] + ['(%s) %s (%s)' % (a, o, b) for o in OPS for a, b in ((rng.choice(ODD), rng.choice(ODD)) for _ in range(60 if full else 22))]
    qs += ['(%s)%s' % (a, t) for a in ODD for t in TAILS]
    qs = list(dict.fromkeys(qs)); rng.shuffle(qs)
    total_run(rep, [('xpf', doc, rng.choice([1, 2, 3, 4, 6, 8]), *qs[i:i + 40]) for i in range(0, len(qs), 40)], 'expressions')
    deep = [a * n + m + b * n for a, m, b in NEST for n in ((1, 2, 3, 12, 40, 150) if not full else (1, 2, 3, 5, 8, 12, 20, 40, 80, 150, 300))]
    total_run(rep, [('xp', doc, 2, q) for q in deep], 'nested_expressions')
    total_run(rep, [('xp', doc, 2, q) for q in list(DEEPKEY)], 'stack_bound', keyof=lambda r: DEEPKEY.get(r[3]) if len(r) > 3 else None)
    n = 50000
    total_run(rep, [('xp', doc, 2, q) for q in ['"' + 'a' * n + '"', 'a' * n, '1' * n, '1.' + '0' * n + '1', '0.' + '9' * n, '1e' + '9' * n, '1e-' + '9' * n, '1e400', '1e-400', '-1e400', ' ' * n + '1', '(:' + 'x' * n + ':)1', '$' + 'v' * n, '@' + 'v' * n, 'string-length("' + 'é' * n + '")', 'count(1 to 200000)', 'sum(1 to 100000)', 'string-length(string-join(1 to 20000, ","))', 'count((1 to 3000) ! (1 to 100))', 'count(1 to 9223372036854775807)', 'count(-9223372036854775807 to 9223372036854775807)', '9223372036854775807 to 9223372036854775807', 'codepoints-to-string(1 to 1000)', 'codepoints-to-string(55296)', 'codepoints-to-string(1114112)', 'codepoints-to-string(-1)', 'codepoints-to-string(4294967361)', 'reverse(1 to 50000)[1]', 'max(1 to 100000)', 'count(distinct-values(1 to 10))', 'subsequence(1 to 100000, 99999)', 'translate("' + 'ab' * 2000 + '", "' + 'ba' * 2000 + '", "x")', 'for $a in 1 to 40, $b in 1 to 40, $c in 1 to 10 return 1', 'count(//node()/ancestor-or-self::node()/descendant-or-self::node())', '"' + '""' * (n // 2) + '"']], 'large_expressions', budget=40)
    dom_checks.mut_run(rep, rng, 700 if full else 130, ('panic',), steps=16, qs=lambda a, b: ['//node()', '//@* | //*', '.', '..', '/*', 'following::node()', 'string(.)', 'namespace-uri()', '//*[', ''])

ODD = ['()', '1', '0', '-1', '1.5', '1e0', '1e308', '-1e308', '1e-320', '9223372036854775807', '-9223372036854775807 - 1', '4611686018427387904', '0.1', 'number("NaN")', '1 div 0e0', '-1 div 0e0', '"a"', '""', '"1"', '" "', '"\U0001d11e\u6bb5"', '"-0"', '"1e400"', 'true()', 'false()', '/', '.', '//*', '//@*', '//text()', '@n', '*', '..', '(1, 2)', '("a", 1, true())', '(., 1)', '(1, .)', 'map{}', 'map{1:2}', 'map{"a":()}', '[]', '[1]', '[[1], 2]', 'array{1, 2}', 'true#0', 'count#1', 'concat(?, "a")', 'function($x){$x}', 'function(){()}', '1 to 3', '//comment()', '//processing-instruction()', '(map{}, [])', '$nope', 'position()', 'last()', 'xs:integer', 'root()', '0e0', '-0e0', '1000000', '0.5', '"xs:integer"', '-0.5', '2147483648', '65536']
FUNCS = ['abs', 'avg', 'boolean', 'ceiling', 'codepoint-equal', 'codepoints-to-string', 'compare', 'concat', 'contains', 'count', 'data', 'distinct-values', 'empty', 'ends-with', 'exactly-one', 'exists', 'false', 'filter', 'floor', 'for-each', 'head', 'index-of', 'insert-before', 'lang', 'last', 'local-name', 'lower-case', 'max', 'min', 'name', 'namespace-uri', 'nilled', 'normalize-space', 'not', 'number', 'one-or-more', 'position', 'remove', 'reverse', 'root', 'round', 'starts-with', 'string', 'string-join', 'string-length', 'string-to-codepoints', 'subsequence', 'substring', 'substring-after', 'substring-before', 'sum', 'tail', 'translate', 'true', 'upper-case', 'zero-or-one', 'map:contains', 'map:get', 'map:keys', 'map:size', 'array:get', 'array:size', 'array:flatten', 'math:pi', 'sort', 'fold-left', 'nope', 'xs:integer', 'array:put', 'map:put']
OPS = [',', 'or', 'and', '=', '!=', '<', '<=', '>', '>=', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'is', '<<', '>>', '||', 'to', '+', '-', '*', 'div', 'idiv', 'mod', 'union', '|', 'intersect', 'except', '!', '/', '//']
TAILS = ['[1]', '[0]', '[-1]', '[1.5]', '[.]', '[last()]', '["a"]', '[()]', '[(1, 2)]', '[map{}]', '[1 div 0e0]', '[9223372036854775807]', '[1e30]', '(1)', '()', '(1, 2)', '(.)', '?1', '?a', '?*', '?(1, 2)', '?(())', ' => count()', ' => string()', ' instance of item()*', ' instance of xs:integer', ' instance of element(a)', ' instance of map(*)', ' instance of array(*)', ' instance of function(*)', ' instance of function(item()) as item()*', ' instance of empty-sequence()', ' cast as xs:string', ' cast as xs:integer?', ' cast as xs:double', ' cast as xs:boolean', ' cast as xs:nope', ' castable as xs:decimal', ' castable as xs:nope', '/..', '/@*', '//node()', '/string()', '/1', '/name()', ' ! 1', ' ! position()', ' ! last()', '/self::a', '/preceding::node()']

# ------------------------------------------------------------------ P22
def p22(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P22')
    doc = '<r n="3"><a>4</a><a>1.5</a><b>x</b><c/></r>'
    ask(rep, pack(doc, ['%s((%s, %s%s))' % (rng.choice(['max', 'min', 'sum', 'avg']), *rng.sample(near(rng), 2), rng.choice(['', '', ', ' + near(rng)[0]])) for _ in range(6000 if full else 400)], size=80), 'neighbouring_numbers')
    S = ['()', '1', '(1, 2)', '(1, 2, 3)', '(1.5, 2)', '(1, 2e0)', '(1.5, 2.5e0, 1)', '//a', '(//a, 1)', '//b', '(1, number("NaN"))', '(1, "a")', '("a", "b")', '("b", "a", "c")', '(true(), false())', '(9223372036854775807, 1)', '(0.1, 0.2)', '(1e0, (1 div 0e0))', '((1 div 0e0), (-1 div 0e0))', '@n', '"1"', '("1", "2")', '(1, true())', '(-1, -2)', '(0, 0.0)', '[1, 2]', '(1 to 10)', '("é", "z")', '(3, 1, 2)', '(2.5, 1)', '(1, 2, 2)', 'map{}', '(//a, //c)', '(4611686018427387904, 4611686018427387904)', '(1, //b)', '(1e0, 1.5, 2)', 'true()', '("a", "a")', '(-0.5, 0.5)', '(1, (), 2)', '(9223372036854775807, 1.0)', '(9223372036854775807, 1e0)', '(1, "true")', '(1, "1")', '("1", 1)', '(1e0, "NaN")', '("true", "false")', '(1, "")', '("", 1)', '(true(), 1)', '(1, 2, "x")', '(//a, "1")', '(1, "INF")', '(1.5, "2.5")', '(2, 1.5, "1")', '(1, " 1 ")', '("a", 1)', '("2", "10")', '("2", 10)', '(1, map{})', '(1, [2])', '(number("NaN"), 1, 2)', '(1, number("NaN"), 2)', '("b", (), "a")', '(-1e0, 1)', '(1.5e0, -2, 0.5)']
    qs = ['%s(%s)' % (f, s) for f in ('sum', 'avg', 'max', 'min', 'count') for s in S] + ['sum(%s, %s)' % (s, z) for s in S for z in ('0', '()', '"z"', '0e0', '(1, 2)', '1.5')]
    qs += ['%s(%s) instance of %s' % (f, s, t) for f in ('sum', 'avg', 'max', 'min') for s in S for t in ('xs:integer', 'xs:decimal', 'xs:double')]
    RND = ['0', '1', '-1', '0.5', '-0.5', '1.5', '2.5', '-1.5', '-2.5', '0.49', '1.4999', '0.0', '1e0', '0.5e0', '-0.5e0', '2.5e0', '1.5e300', 'number("NaN")', '(1 div 0e0)', '(-1 div 0e0)', '-0e0', '0.49999999999999994e0', '4503599627370497e0', '4503599627370495.5e0', '9007199254740993', '-9223372036854775807', '9223372036854775807', '()', '"1"', '"1.5"', '@n', '//b', '(1, 2)', 'true()', '0.1', '-0.1', '1e-10', '-1e-10', '123456.5', '-0.4e0', '//c', '(//a)[2]', '3.7', '-3.7', '(-9223372036854775807 - 1)']
    qs += ['%s(%s)' % (f, r) for f in ('abs', 'ceiling', 'floor', 'round') for r in RND] + ['%s(%s) instance of %s' % (f, r, t) for f in ('abs', 'ceiling', 'floor', 'round') for r in RND for t in ('xs:integer', 'xs:decimal', 'xs:double')]
    NS = RND + ['"a"', '" 1 "', '""', '"INF"', '"-INF"', '"NaN"', '"1e5"', '"+1"', 'false()', '1e21', '1e-7', '123456789012e0', '0.000001', '1e6', '1234567.125e0', '100', '100.0', '100e0', '1e15', '1e16', '1e17', '12345678901234567890.0', '0.1e0', '1.1e1', '5e-324', '1.7976931348623157e308', '3.0e10', '.1', '1.', '"0x10"', '"1 2"', '"１"']
    qs += [f % r for f in ('number(%s)', 'string(%s)', '%s cast as xs:string', 'string(number(%s))', 'number(string(%s))', '%s', 'concat(%s, "")', 'number(string(number(%s))) = number(%s)' ) for r in NS if f.count('%s') == 1]
    qs += ['%s/number()' % p for p in ('//a', '//b', '//@n', '/', '//c')]
    ask(rep, pack(doc, qs if full else rng.sample(qs, min(len(qs), 2600)), [2], size=90), 'aggregate_and_rounding_table')
    def fl():
        k = rng.random()
        if k < .25: return '%s%d.%d' % (rng.choice(['', '-']), rng.randint(0, 999), rng.randint(0, 10 ** rng.randint(1, 9)))
        if k < .5: return '%s%d.%de%d' % (rng.choice(['', '-']), rng.randint(0, 9), rng.randint(0, 10 ** rng.randint(1, 16)), rng.randint(-25, 25))
        if k < .6: return '%d.5' % rng.randint(-20, 20)
        if k < .7: return '%d.5e0' % rng.randint(-20, 20)
        if k < .8: return '%de%d' % (rng.randint(-99, 99), rng.randint(-30, 30))
        return '%d' % (rng.randint(-10 ** 18, 10 ** 18) >> rng.randint(0, 60))
    qs = []
    for _ in range(8000 if full else 1500):
        f = rng.choice(['%s', 'string(%s)', 'round(%s)', 'floor(%s)', 'ceiling(%s)', 'abs(%s)', 'number("%s")', '"%s" cast as xs:double', '%s cast as xs:integer', '%s cast as xs:decimal', '%s cast as xs:double'])
        qs.append(f % fl())
    for _ in range(5000 if full else 900):
        f = rng.choice(['sum', 'avg', 'max', 'min', 'count'])
        k = rng.choice(['int', 'flt', 'mix', 'str'])
        xs = [str(rng.randint(-9, 9)) if k == 'int' or k == 'mix' and rng.random() < .5 else '"%s"' % rng.choice(['a', 'b', 'ab', '', 'é']) if k == 'str' else fl() for _ in range(rng.randint(0, 5))]
        qs.append('%s((%s))' % (f, ', '.join(xs)))
    ask(rep, pack(doc, qs, [2], size=90), 'random_numbers')
    def mk(g): return [g.rng.choice(['sum', 'avg', 'max', 'min', 'count']), '('] + g.ex('nums' if g.rng.random() < .7 else 'seq', 2) + [')'] if g.rng.random() < .6 else [g.rng.choice(['abs', 'ceiling', 'floor', 'round', 'number', 'string']), '('] + g.ex('item' if g.rng.random() < .4 else 'num', 3) + [')']
    ask(rep, randoms(rng, 800 if full else 120, mk), 'random_aggregates')

# ------------------------------------------------------------------ P23
CALLS = [('contains', ['"abc"', '"b"']), ('concat', ['"a"', '"b"']), ('concat', ['"a"', '2', '"c"']), ('substring', ['"abcdef"', '2']), ('substring', ['"abcdef"', '2', '3']), ('insert-before', ['(1, 2)', '2', '(8, 9)']), ('remove', ['(1, 2, 3)', '2']), ('index-of', ['(1, 2, 1)', '1']), ('string-join', ['("a", "b")', '"-"']), ('subsequence', ['(1, 2, 3)', '2']), ('subsequence', ['(1 to 9)', '3', '2']), ('count', ['(1, 2)']), ('upper-case', ['"ab"']), ('abs', ['-1']), ('sum', ['(1, 2)']), ('sum', ['()', '7']), ('translate', ['"abc"', '"ab"', '"xy"']), ('starts-with', ['"abc"', '"a"']), ('ends-with', ['"abc"', '"a"']), ('compare', ['"a"', '"b"']), ('map:get', ['map{"k": 5}', '"k"']), ('map:contains', ['map{"k": 5}', '"k"']), ('map:size', ['map{"k": 5}']), ('array:get', ['[4, 5]', '2']), ('array:size', ['[4, 5]']), ('array:flatten', ['[4, [5]]']), ('reverse', ['(1, 2)']), ('string', ['12']), ('not', ['0']), ('boolean', ['"x"']), ('name', ['//a']), ('root', ['//b']), ('number', ['"5"']), ('head', ['(1, 2)']), ('tail', ['(1, 2)']), ('string-length', ['"abc"']), ('substring-before', ['"a-b"', '"-"']), ('substring-after', ['"a-b"', '"-"']), ('exists', ['()']), ('empty', ['()']), ('codepoint-equal', ['"a"', '"a"']), ('string-to-codepoints', ['"ab"']), ('codepoints-to-string', ['(97, 98)']), ('round', ['2.5']), ('floor', ['2.5']), ('ceiling', ['2.5']), ('avg', ['(1, 2)']), ('max', ['(1, 2)']), ('min', ['(1, 2)']), ('zero-or-one', ['()']), ('one-or-more', ['1']), ('exactly-one', ['1']), ('data', ['//b']), ('local-name', ['//b']), ('namespace-uri', ['//b']), ('nilled', ['//b']), ('lower-case', ['"AB"']), ('lang', ['"en"', '//b']), ('map:keys', ['map{"k": 5}']), ('for-each', ['(1, 2)', 'function($q) { $q + 1 }']), ('filter', ['(1, 2)', 'function($q) { $q = 2 }']), ('true', []), ('false', [])]
def p23(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P23')
    doc = '<r n="1" xml:lang="en"><a>1</a><b>2</b></r>'
    qs = []
    for f, as_ in CALLS:
        n = len(as_); call = '%s(%s)' % (f, ', '.join(as_))
        qs += [call, 'fn:' + call if ':' not in f else call, '%s#%d(%s)' % (f, n, ', '.join(as_)), 'let $f := %s#%d return $f(%s)' % (f, n, ', '.join(as_)), '(%s#%d)(%s)' % (f, n, ', '.join(as_)), 'function(%s) { %s(%s) }(%s)' % (', '.join('$p%d' % i for i in range(n)), f, ', '.join('$p%d' % i for i in range(n)), ', '.join(as_))]
        if n: qs += ['%s => %s(%s)' % (as_[0], f, ', '.join(as_[1:])), 'let $f := %s#%d return %s => $f(%s)' % (f, n, as_[0], ', '.join(as_[1:])), '%s => (%s#%d)(%s)' % (as_[0], f, n, ', '.join(as_[1:]))]
        for mask in range(1, 1 << n):
            holes = [i for i in range(n) if mask >> i & 1]
            p = '%s(%s)' % (f, ', '.join('?' if i in holes else a for i, a in enumerate(as_)))
            ha = ', '.join(as_[i] for i in holes)
            qs += ['%s(%s)' % (p, ha), 'let $f := %s return $f(%s)' % (p, ha)]
            if len(holes) == 1: qs += ['for-each((%s)[1], %s)' % (as_[holes[0]], p), '%s => (%s)()' % (as_[holes[0]], p)]
            if len(holes) == 2: qs += ['%s(?, %s)(%s)' % (p, as_[holes[1]], as_[holes[0]]), '%s(%s, ?)(%s)' % (p, as_[holes[0]], as_[holes[1]])]
        for m in range(0, 5):
            if m != n: qs += ['%s(%s)' % (f, ', '.join((as_ + ['1', '2', '3', '4'])[:m])), '%s#%d' % (f, m), '%s#%d(%s)' % (f, n, ', '.join((as_ + ['1', '2', '3', '4'])[:m])), '%s(%s)' % (f, ', '.join(['?'] * m)) if m else 'nofunc()']
        qs += ['%s#%d instance of function(*)' % (f, n), 'count(%s#%d)' % (f, n)]
    ask(rep, pack(doc, qs if full else rng.sample(qs, min(len(qs), 1800)), [2], size=80), 'ways_to_call')
    inl = ['function($x) { $x + 1 }', 'function($x, $y) { ($y, $x) }', 'function() { 7 }', 'function($x as xs:integer) { $x }', 'function($x as xs:integer?) as xs:string { string($x) }', 'function($x) as xs:integer { $x }', 'function($x as node()) { name($x) }', 'function($x) { . }', 'function($x) { position() }', 'function($x, $x) { $x }', 'function($x as xs:string*) { count($x) }', 'function($f) { $f(1) }', 'function($x) { function($y) { ($x, $y) } }', 'function($x as item()+) { $x }', 'function($x) { if ($x = 1) then $x else () }', 'function($x) { }', 'function($x as map(*)) { $x?k }', 'function($y) { $x }', 'function($x as xs:double) { $x }', 'function($x as xs:decimal) { $x }']
    arg = ['1', '2', '"a"', '()', '(1, 2)', '//a', '1.5', 'true()', 'map{"k": 1}', 'count#1', '[1]', '1e0', '(1, "a")', '//a[1]', '"1"']
    qs = []
    for f in inl:
        for a in arg:
            qs += ['(%s)(%s)' % (f, a), '%s(%s)' % (f, a), 'let $x := 5 return (%s(%s), $x)' % (f, a), 'for-each(%s, %s)' % (a, f), 'filter(%s, %s)' % (a, f), '%s => (%s)()' % (a, f), '//a/(%s)(%s)' % (f, a), 'let $x := 5, $f := %s return for $x in 6 return $f(%s)' % (f, a), '%s(%s)(%s)' % (f, a, '2'), '%s(%s, %s)' % (f, a, '3'), '%s(?)(%s)' % (f, a), '%s(?, %s)(%s)' % (f, a, '4')]
        qs += ['%s()' % f, f, '%s instance of function(*)' % f, '(1, 2) ! %s(.)' % f, '//a ! %s(.)' % f, 'count((%s, %s))' % (f, f), '[%s](1)(1)' % f, 'map{"f": %s}?f(1)' % f]
    ask(rep, pack(doc, qs if full else rng.sample(qs, min(len(qs), 2200)), [2], size=80), 'inline_functions')
    def mk(g):
        k = g.rng.random()
        if k < .75: return g.callfn(g.rng.choice(['int', 'str', 'any', 'bool', 'seq', 'nodes']), 3)
        if k < .9: return g.arrow(3)
        return g.fn(2)
    ask(rep, randoms(rng, 1500 if full else 220, mk), 'random_calls')

# ------------------------------------------------------------------ P24
ALPHABETS = {'steps': 'a * / // .. . @ child:: [ ] 1 div'.split(),
 'binds': ['for', 'let', '$x', 'in', ':=', 'return', ',', '1', 'some', 'satisfies'],
 'ifs': ['if', '(', ')', 'then', 'else', '1', 'a'],
 'types': ['1', 'instance of', 'cast as', 'castable as', 'xs:integer', 'item()', '?', '*', '+', 'map(', 'array(', ')', 'function(', 'as', ','],
 'calls': ['count', '(', ')', '1', ',', '?', '#', 'concat', 'true', '=>', '$f', '"s"'],
 'maps': ['map', '{', '}', '[', ']', '1', ':', '"a"', '?', '*', ',', 'array', 'k'],
 'funs': ['function', '(', ')', '$x', ',', '{', '}', 'as', 'xs:string', '1', '?'],
 'ops': ['1', '+', '-', '*', '=', 'and', 'to', '||', '!', 'union', 'is', 'a'],
 'kinds': ['element', 'attribute', 'node', 'text', 'processing-instruction', '(', ')', '*', 'a', ',', '?', '"s"', '/'],
 'odd': ['a', '$', '::', ':', '..', '#', '@', '{', '(', ')', '"s"', '1.5', 'e', '1e0']}
# letters that are whole phrases, so that short sequences are long expressions
PHRASES = ['for $x in', 'let $x :=', 'some $x in', 'every $x in', 'return $x', 'satisfies $x', ', $y in', ', $y :=', 'if (1)', 'if (', 'then 1', 'else 2', 'then', 'else',
           'function($x)', 'function($x, $y)', 'function()', '{ $x }', '{ 1 }', 'as xs:integer', 'as item()*', 'map {', '1 : 2', '}', '[ 1', ']', '? 1', '? k', '? *', '? (', '(1)', '()', '(', ')', ',',
           '1', '2.5', '"s"', '.', '..', 'a', '@n', '*', '/', '//', '/a', '//a', 'child::a', 'parent::node()', 'text()', '[1]', '[. = 1]', '[', 'instance of', 'xs:integer', 'element(a)', 'item()', 'map(*)', 'array(', 'cast as xs:string', 'castable as xs:string ?',
           '=> count()', '=> concat("b")', '=> $f(', 'count(', 'count#1', '$f', '$x', 'true()', 'concat(1,', '?)', '! a', '! (', '+', '-', '- 1', 'div', 'eq', '=', '<', '||', 'to', 'and', 'or', '|', 'union', 'except', 'is', '<<']
def model_parse(rep, tier, prop):
    """MCParse builds sequences of tokens by the grammar and shows that the parser of
    the specification accepts the derivable ones alone and disregards spacing; both
    are asked of the real code, alone and where they are read but not evaluated."""
    rng = random.Random('grammar %s %d' % (prop, rep.seed)); full = tier == 'thorough'
    L = {'steps': 4, 'binds': 5, 'ifs': 6, 'types': 4, 'calls': 4, 'maps': 4, 'funs': 5, 'ops': 4, 'kinds': 4, 'odd': 5} if full else {'ifs': 5, 'binds': 4, 'odd': 4}
    ses = [{'alpha': [core.cps(x) for x in a], 'len': L.get(n, 3) if prop == 'P26' else min(L.get(n, 3), 4)} for n, a in ALPHABETS.items()]
    ses += [{'alpha': [core.cps(x) for x in rng.sample(PHRASES, rng.choice([6, 8, 10]))], 'len': rng.choice([4, 5]) if full else 3} for _ in range(80 if full else 30)]
    r = core.validate('MCParse', ses)
    seqs, good = [], 0
    for kind, s, l, w in sorted(r.marks, key=str):
        plain, tight = [core.uncps(x) for x in json.loads(json.loads(w))]
        good += l
        if prop == 'P26': seqs.append([plain, 'if (1) then 3 else (%s)' % plain])
        elif l: seqs.append([plain, tight, 'if (1) then 3 else (%s)' % tight, re.sub(' ', lambda m: rng.choice(SP + CM), plain) if '"' not in plain else tight])
    rep.add(model_states=r.distinct, model_transitions=r.generated, model_token_sequences=len(r.marks), model_expressions=good)
    n = 20000 if full else 2500
    if len(seqs) > n: seqs = rng.sample(seqs, n)
    ask(rep, pack('<r n="1"><a>1<b/></a><b n="2"/></r>', list(dict.fromkeys(q for l in seqs for q in l)), [2], 90), 'sequences_of_the_model', cls=prop == 'P26')
def p24(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P24')
    model_parse(rep, tier, 'P24')
    kinds = ['nodes', 'nodes', 'num', 'int', 'str', 'bool', 'seq', 'map', 'arr', 'fn', 'lookup', 'compare', 'nodecmp', 'quant', 'arrow']
    g = []
    for _ in range(700 if full else 110):
        d = Doc(rng, rng.randint(3, 12)); qs = []
        for _ in range(5):
            t = getattr(Gen(rng, d.values, .05), rng.choice(kinds))(3)
            if len(t) > 120: continue
            qs += [render(t), render(t, rng, .15), render(t, rng, .5), render(t, rng, .95)]
            s = render(t, rng, .3); qs.append(rng.choice(SP) + s + rng.choice(SP + CM)); qs.append(rng.choice(CM) + s)
        if qs: g.append((d.xml, rng.randint(1, 20), qs))
    ask(rep, g, 'spacings')
    doc = '<r n="1"><a>1</a><a-b/><b/></r>'
    # literals
    C = ['"', "'", 'a', '(:', ':)', ' ', '\n', '&', '<', '&amp;', '""', "''", '\t', '\r\n', '{', 'é', '\\', '$x', '\\n', '//', '-- ', '(', ')', '\u3000', '{{']
    qs = []
    for q, o in (('"', "'"), ("'", '"')):
        for a in C:
            for b in C:
                s = (a + b).replace(q, q + q); qs.append(q + s + q)
                if rng.random() < .3: qs += ['string-length(%s%s%s)' % (q, s, q), 'concat(%s%s%s, 1)' % (q, s, q), '%s%s%s eq %s%s%s' % (q, s, q, q, s, q)]
    for _ in range(1500 if full else 250): qs.append(rng.choice('"\'') + ''.join(rng.choice(C) for _ in range(rng.randint(0, 5))) + rng.choice('"\''))
    if not full: qs = rng.sample(qs, 1500)
    # comments and blanks
    qs += ['1(::)+(::)2', '(:a:)1', '1(:a:)', '(:(:a:):)1', '(:(:a:)1', '(:a:):)1', '(: " :) "(:" (: " :)', '1 (: a (: b :) c (: d (: e :) :) :) + 2', '(:)1', '(::)', '(: (', '((::)1(::))', '((:a:)(:b:)1)', '(:\n:)1', '(: :) :) 1', '"(:x:)"', '1+(: 2 :)3', '(:((::):)1', '(:)(:):)1', '(:::)1', '(: :(: ):) :)1', 'a(::)[1]', '@(::)n', '$(::)x', '//(::)a', 'a(::)::b', 'child(::)::(::)a', 'count(::)(a)', 'let(::)$x(::):=(::)1(::)return(::)$x', 'a(::)/(::)b', '1(::)2', '"a"(::)"a"', 'fn(::):count(1)', 'p:(::)a', '(:a', '1 :)', ':)', '(:a:', '(:a:)(', 'for(::)$x in(::)1 return$x', 'if(1)then 2 else 3', 'if(1)then(2)else(3)', 'if (1)then"a"else"b"', '1eq 1', '1 eq1', '"a"eq"a"', '5mod 2', '5 mod2', '5div 2', '1to 2', '(1)to(2)', 'a-b', 'a -b', 'a - b', '1-1', '1 -1', '1- 1', '2*3', '2 *3', '2* 3', '1<2', '1>2', '1>=2', '1> =2', '1! =2', '1!=2', '1 !2', '1<<2', 'a<<b', 'a< <b', '-1', '- 1', '--1', '-  -1', '1--1', '1+-+1', '.5', '. 5', '1.', '1 .', '1.5', '1. 5', '1 .5', '1..2', '1...2', '.', '..', '. .', '...', './a', '. / a', './/a', './ /a', '//a', '/ /a', '/ a', '/a', '@n', '@ n', '@*', '@ *', 'a[1]', 'a [ 1 ]', 'a [1] [1]', '$ x', 'let $x:=1 return $x', 'let $x := 1 return$x', 'let $ x := 1 return $ x', 'let$x:=1return$x', 'for $x in(1,2)return $x', '(1,2,3)', '( 1 , 2 )', '(1,)', '(,1)', '()', '( )', 'a|b', 'a | b', 'a||b', 'a| |b', '"a"||"b"', '1=>string()', '1= >string()', '1 => string ( )', 'count#1', 'count #1', 'count# 1', 'count # 1', 'map{"a":1}', 'map {"a" : 1}', 'map{"a":1}?a', 'map{"a":1} ? a', '[1,2]?1', '[1,2] ? 1', '[1 , 2](1)', 'array{1,2}', 'array {1,2}', 'array{}', 'map{}', 'map { }', 'function($x){$x}(1)', 'function ( $x ) { $x } ( 1 )', 'a instance of element()', 'a instance  of element ( )', 'a instanceof element()', '1 castas xs:string', '1 cast as xs:string', '1 cast  as  xs:string', '1 cast as xs :string', '1 cast as xs: string', 'child :: a', 'child ::a', 'child:: a', 'child : : a', 'fn:count(1)', 'fn :count(1)', 'fn: count(1)', 'text()', 'text ( )', 'processing-instruction( "a" )', '*', ' * ', '* :a', '*: a', '*:a', 'p:*', 'p :*', 'p: *', '@*:n', 'xs:integer', '1instance of xs:integer', '\u00a01', '1\u3000', '1\u0085', '\ufeff1', '1\x0c', '\x0b1']
    # numeric literals by form
    forms = ['0', '1', '00', '007', '1.', '.1', '1.0', '0.10', '1e0', '1E0', '1e+0', '1e-0', '.1e1', '1.e1', '1.5E-2', '1e', '1e+', '1.e', '.', '.e1', '1.2.3', '1e1.5', '1_0', '0x1', '1f', '1L', '9223372036854775807', '9223372036854775808', '99999999999999999999', '99999999999999999999.0', '1e400', '1e-400', '0.000000000000000000000000000001', '123456789.123456789', '1e05', '１', '1,5', '1 000', '+1', '-.5', '-1.', '1e1e1', '000000000000000000000000000001', '3.0', '3.00', '1.10e2']
    qs += forms + ['%s instance of %s' % (f, t) for f in forms for t in ('xs:integer', 'xs:decimal', 'xs:double')] + ['%s + 1' % f for f in forms] + ['1 + %s' % f for f in forms] + ['(%s)' % f for f in forms]
    ask(rep, pack(doc, qs, [2], size=90), 'literals_and_comments')

# ------------------------------------------------------------------ P25
def p25(rep, tier, rng):
    full = tier == 'thorough'
    laws(rep, tier, rng, 'P25')
    F = ['name()', 'local-name()', 'namespace-uri()', 'string()', 'number()', 'data()', 'nilled()', 'string-length()', 'lang("en")', 'lang("EN-us")', 'lang("e")', 'lang("")', 'lang("ja")', 'root()/*/name()', 'count(root()/node())']
    qs = ['%s' % f for f in F] + ['for $x in (//node(), //@*) return $x/%s' % f for f in F[:-2] if f not in ('number()',)] + ['(//node() | //@*) ! number(.)', '//* ! string-length(string())', '//*[lang("en")]', '//@*[lang("en")]', '//text()[lang("en")]', '/lang("en")', 'every $x in //* satisfies string($x) = string-join($x//text(), "")', 'name(())', 'local-name(())', 'namespace-uri(())', 'name(//*)', 'name(//*[1])', 'string(())', 'data(//*)', 'data(//@*)', 'data((//comment(), //processing-instruction()))', 'name(1)', 'lang("en", //@*[1])', 'lang((), /*)', 'lang("en", //*[last()])', 'root(())', 'root(//@*[1])', '//*[name() = "p:a"]', '//*[local-name() = "a"]', '//*[namespace-uri() = "u1"]', '//@*[namespace-uri() = "u2"]', '. = string()', '//*[. = string()]', 'number(/*)', '//*[number() = 1]', 'string(/)', 'for $x in //* return ($x/name(), $x/namespace-uri(), $x/local-name())', 'for $x in //@* return ($x/name(), $x/namespace-uri(), $x/local-name())', 'string-join(//node() ! string(.), "|")', 'normalize-space(/*/@zz)']
    g = []
    for _ in range(900 if full else 110):
        x = nsdoc(rng, rng.randint(3, 12)); g += [(x, 1, qs)] + [(x, rng.randint(2, 30), qs[:14]) for _ in range(3)]
    ask(rep, g, 'functions_of_nodes')
    # the same facts through the node methods
    docs = [nsdoc(rng, rng.randint(3, 14)) for _ in range(3000 if full else 450)]
    dom_checks.dom_run(rep, docs, 'documents', {'ln', 'sn', 'ns', 'db', 'av'}, load=False)
    dom_checks.mut_run(rep, rng, 600 if full else 90, ('ask',), steps=10, qs=lambda a, b: ['string()', 'name()', 'namespace-uri()', 'lang("en")', '//* ! string(.)', '//* ! namespace-uri(.)', '(//node() | //@*) ! name(.)', '//@* ! string(.)', 'data(.)', 'local-name()', '//*[lang("1")]'])

def nsdoc(rng, n):
    """documents with namespace declarations, prefixes, xml:lang and xsi:nil at many levels"""
    left = [n]
    def el(depth):
        left[0] -= 1
        nm = rng.choice(['a', 'b', 'p:a', 'p:b', 'q:a', 'z:c', 'xml:x', 'a.b', 'p:a-b'] + (['p:a:b', 'a:b:c', 'p:'] if rng.random() < .2 else []))
        at = []
        for a, vs, p in (('xmlns', ['u1', 'u2', ''], .25), ('xmlns:p', ['u1', 'u2', 'u3', ''], .35), ('xmlns:q', ['u1', 'u9'], .25), ('xml:lang', LANGS + ['en-us', 'EN-US-x', 'enx'], .3), ('xsi:nil', ['true', 'false', '1', 'TRUE', ''], .15), ('p:n', ['1', 'x'], .2), ('n', ['1', ' 2 ', 'x', ''], .25), ('q:n', ['7'], .12), ('lang', ['en'], .1), ('xmlnsp', ['w'], .06), ('z:z', ['0'], .06), ('p:xmlns', ['w'], .04)):
            if rng.random() < p: at.append('%s="%s"' % (a, rng.choice(vs)))
        rng.shuffle(at)
        s = '<' + nm + ''.join(' ' + a for a in at)
        kids = ''
        for _ in range(rng.randint(0 if depth else 1, 3)):
            if left[0] <= 0: break
            k = rng.random()
            if k < .6 and depth < 6: kids += el(depth + 1)
            elif k < .85: kids += rng.choice(['1', ' 2 ', 'x', '&lt;y', 'é段', '<![CDATA[z]]>', '3.5', 't\n'])
            else: kids += rng.choice(['<!--c-->', '<?pi 1?>', '<?pi?>', '<?a  b c ?>', '<!---->'])
        return s + ('/>' if not kids and rng.random() < .7 else '>' + kids + '</' + nm + '>')
    return rng.choice(['', '', '<!--t-->', '<?pi t?>']) + el(0)

# ------------------------------------------------------------------ P26
PUNCT = ['(', ')', '[', ']', '{', '}', ',', '/', '//', '@', '..', '.', '::', ':', ':=', '|', '||', '+', '-', '*', '=', '!=', '<', '<=', '>', '>=', '<<', '>>', '!', '=>', '?', '#', '$', '1', '1.5', '"s"', "'", '"', 'a', 'for', 'let', 'some', 'every', 'if', 'then', 'else', 'return', 'in', 'satisfies', 'and', 'or', 'div', 'to', 'instance', 'of', 'cast', 'castable', 'as', 'union', 'map', 'array', 'function', 'node', 'text', 'child', 'xs:integer', 'element', 'item', 'is', 'eq', '(:', ':)', ';', '%', '~', '^', '`', '\\', '&', 'nofun', 'treat', 'p:*', '*:a', 'x', '-', 'namespace', 'count', 'position', 'true']
def p26(rep, tier, rng):
    full = tier == 'thorough'
    model_parse(rep, tier, 'P26')
    doc = '<r n="1"><a>1<b/></a><b n="2"/></r>'
    kinds = ['nodes', 'nodes', 'num', 'int', 'str', 'bool', 'seq', 'map', 'arr', 'fn', 'lookup', 'compare', 'quant', 'arrow', 'forx', 'letx', 'callfn', 'generic', 'typ']
    def toks(d):
        while True:
            g = Gen(rng, ['1', 'x'], .05); k = rng.choice(kinds)
            t = g.sub('item', d) + [rng.choice(['cast', 'castable', 'instance'])] if k == 'typ' else getattr(g, k)(rng.choice(['num', 'str', 'nodes', 'bool']), d) if k in ('forx', 'letx', 'callfn', 'generic') else getattr(g, k)(d)
            if k == 'typ': t = t + ['of'] + g.seqtype(2) if t[-1] == 'instance' else t + ['as', rng.choice(TYPES)]
            if len(t) < 70: return t
    # sequences of up to four tokens
    base = ['1', 'a', '(', ')', ',', '/', '//', '[', ']', '+', '-', '*', '.', '@', '$x', '"s"', 'div', '::', '|', '..', 'child', '=', '?', '!', '{', '}', '#', ':', 'if', 'for', 'map', ':=']
    qs = [' '.join(t) for k in (1, 2) for t in itertools.product(base, repeat=k)] + [''.join(t) for t in itertools.product(base[:22], repeat=2)]
    three = [' '.join(t) for t in itertools.product(base, repeat=3)]
    qs += three if full else rng.sample(three, 2200)
    for _ in range(20000 if full else 1200): qs.append(' '.join(rng.choice(base) for _ in range(rng.choice([4, 4, 5]))))
    ask(rep, pack(doc, qs, [2], size=90), 'token_sequences', cls=True)
    # one or two tokens of a well-formed expression removed, added, changed, swapped, or the text cut
    n = 26000 if full else 4200
    qs = []
    for _ in range(n):
        t = list(toks(rng.choice([1, 2, 2, 3])))
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            k = rng.random(); i = rng.randrange(len(t)) if t else 0
            if not t: break
            if k < .3: del t[i]
            elif k < .55: t.insert(rng.randint(0, len(t)), rng.choice(PUNCT))
            elif k < .75: t[i] = rng.choice(PUNCT)
            elif k < .85: j = rng.randrange(len(t)); t[i], t[j] = t[j], t[i]
            elif k < .93: t = t[:i]
            else: t = t[i:]
        q = render(t, rng, .1 if rng.random() < .3 else 0) if t else ''
        if rng.random() < .12 and q: i = rng.randrange(len(q)); q = q[:i] + rng.choice(['', '"', "'", '(', ')', ' ', ':', '(:', '%', '/']) + q[i + rng.choice([0, 1]):]
        if len(q) < 400: qs.append(q)
    ask(rep, [(doc, 2, qs[i:i + 15]) for i in range(0, len(qs), 15)], 'changed_expressions', cls=True)
    fixed = ['for $x in 1 return', 'for $x in return 1', 'for $x 1 return 1', 'for x in 1 return 1', 'for $x in 1, return 1', 'let $x = 1 return 1', 'let $x := return 1', 'let $x := 1 $x', 'let $x := 1, $y := 2', 'some $x in 1', 'some $x in 1 satisfies', 'every $x satisfies 1', 'if (1) then 2', 'if (1) else 2', 'if 1 then 2 else 3', 'if () then 1 else 2', 'if (1) then 2 else', 'if (1) then else 3', 'a instance of', 'a instance element()', 'a of element()', '1 cast xs:integer', '1 cast as', '1 cast as xs:integer+', '1 cast as xs:integer*', '1 cast as node()', '1 castable as item()', '1 cast as xs:integer ?', '1 castable as xs:integer?', '1 instance of xs:integer??', '1 instance of empty-sequence()?', '1 instance of (xs:integer', '1 instance of map(xs:integer)', '1 instance of map(*, item())', '1 instance of map(item(), item())', '1 instance of array(xs:integer, xs:integer)', '1 instance of function(xs:integer)', '1 instance of function() as', '1 instance of function(*) as item()', '1 instance of element(', '1 instance of element(a b)', '1 instance of element("a")', '1 instance of text(a)', '1 instance of item(a)', '1 instance of comment("x")', '1 instance of processing-instruction(*)', 'a[]', 'a[1', 'a1]', 'a[1]]', '[1', '1]', '[1,]', '[,1]', '[1 2]', 'map{1}', 'map{1:}', 'map{:1}', 'map{1:2,}', 'map{1:2 3:4}', 'map{1 2}', 'map{', 'map', 'array{', 'array{1', 'array[1]', 'function', 'function(', 'function()', 'function(){', 'function($x){$x', 'function(x){1}', 'function($x $y){1}', 'function($x,){1}', 'function($x as){1}', 'function($x) as {1}', 'function($x){1}}', '?', '?1', '?*', '1?', 'map{}?', 'map{}?"a"', 'map{}?()', 'map{}?(', 'map{}?$x', 'map{}?-1', 'map{}?1.5', '[1]?1?', '()?()', '@', '@1', '@@n', '@a@b', 'a@b', 'a/@', '$', '$1', '$$x', '$x:', '$x', '$p:x', 'child::', 'child::1', 'child::child::a', 'nochild::a', 'self::', '::a', 'a::b', 'attribute::', 'a:', ':a', 'a:b:c', 'a/', '/a/', '//', 'a//', 'a//()', '///', '////', 'a///b', '/ /', '//..', '..//', '../', './', '.a', '..a', '.1a', '1a', '1 a', 'a 1', 'a b', '"a" "b"', '1 2', '(1)(2)', '"a"(1)', '1(1)', '() ()', '(1 2)', '(1, 2', '1, 2)', '1,', ',1', ',', '(,)', '1,,2', '+', '-', '1 +', '+ 1', '* 1', '1 *', '*', '* *', '* * *', '* * * *', 'div', 'div div', 'div div div', 'a div', 'div a', '1 div', 'div 1', 'and', 'a and', 'and b', 'a and and b', 'a or', '1 =', '= 1', '1 = = 1', '1 = 2 = 3', '1 < 2 < 3', '1 eq 2 eq 3', '(1 eq 2) eq 3', 'a is b is c', '1 to 2 to 3', '1 to', 'to 1', '1 || ', '|| 1', 'a |', '| a', 'a union', 'a intersect', 'except b', '1 !', '! 1', '1 =>', '=> f()', '1 => f', '1 => count', '1 => 2', '1 => count()', '1 => count(1)', '1 => (count#1)()', '1 => $x()', '1 => "a"()', 'count', 'count(', 'count)', 'count()', 'count(1', 'count(1))', 'count(,)', 'count(1,)', 'count(1,2)', 'nofunc()', 'nofunc(1)', 'fn:nofunc()', 'xx:count(1)', 'map:nofunc()', 'array:nofunc()', 'nofunc#1', 'count#', 'count#a', 'count#-1', 'count#1.0', 'count#9', '#1', 'count#1#1', 'count(?)', 'count(?)(1)', 'count(??)', '1(?)', '?(1)', 'node(', 'node(1)', 'text(1)', 'text("a")', 'comment(1)', 'comment(a)', 'processing-instruction(1)', 'processing-instruction("a" "b")', 'element(1)', 'element(a,)', 'element(,a)', 'element(a,b,c)', 'attribute(a,b?)', 'element(a,b?)', 'item()', 'if', 'if (', 'for', 'for $', 'let', 'some', 'every', 'return', 'then', 'else', 'in', 'satisfies', '"', "'", '"a', "'a", '"a""', '"a\'', "'a''", '(:', '(: a', ':)', '(: (: :)', '%', '~1', '1;', ';', '1 ; 2', '`a`', '\\', '&', '&amp;', '^', '1 ^ 2', '1 % 2', 'a % b', '!', '!!', 'not 1', 'not', 'not(', '<', '<a/>', '<a>', '{', '}', '{}', '{1}', '[', ']', '(', ')', '[]', '()', '()()', ')(', '][', '}{', '([)]', '{(})', '((1)', '(1))', '(((1)))', '[[1]]', '[[1]', 'a[[1]]', 'a[1][2]', 'a[1,2]', 'a[(1,2)]', 'a[,]', '. .', '.. ..', '...', '. + .', '.+.', '..+..', 'a . b', 'treat', '1 treat as xs:integer', '1 treat', 'schema-element(a)', 'namespace::a', 'document-node()', 'text', 'node', 'last', 'position', 'last(', 'last(1)', 'position(1)', 'true', 'true(1)', 'true()()', 'Q{}a', 'Q{u}a', '1e', '1e+', '1.e', '.e', '0x', 'xs:integer', 'xs:integer(1)', 'xs:nope', 'p:a', 'p:', 'p:*', '*:a', '*:', ':*', '*:*', 'p:p:*', '*a', 'a*', 'a*b', 'a *b', '@*', '@*:n', '@p:*', '@node()', '@text()', '@..', '@.', '@child::a', '..[1]', '.[1]', '.[.]', '/[1]', '//[1]', '/*', '/ * 2', '(/) * 2', '/ + 1', '(/) + 1', '/ = 1', '/ and 1', '/, 1', '/ | a', '(/)', '/)', '/ eq 1', '/ is /', '/ div 2', '/ union a', '/ to 2', '-', '--', '- -', '-a', '- 1 -', '1 - - 1', '1 - + - 1', '-()', '-"a"', '(1)-(2)', '1-', 'a-', 'a -', '-a-', 'a--b']
    ask(rep, pack(doc, fixed, [2, 4], size=60), 'fixed_expressions', cls=True)
    # strings of characters: numerals, names, quotes, comments, symbols
    qs = []
    als = [('1.eE+-', 4), ('1.e5 -', 4), ('a:-.* ', 4), ('a1:_-\u00b7', 4), ('"\'a ', 5), ('(:) 1', 5), ('<=>!1|', 4), ('./*@a1', 4), ('[]{}?1', 4), ('$a:=1 ', 4), ('#a1()?', 4), ('=>!1a(', 4)]
    for al, k in als:
        for j in range(1, k + 1):
            l = [''.join(t) for t in itertools.product(al, repeat=j)]
            qs += l if full or len(l) < 50 else rng.sample(l, min(len(l), 110))
        l = [''.join(rng.choice(al) for _ in range(rng.randint(k, k + 4))) for _ in range(2000 if full else 80)]
        qs += l + [rng.choice(['%s+1', '1+%s', '(%s)', '%s', 'a[%s]', '%s eq 1', '-%s', '1,%s']) % x for x in l]
    every = sorted(set(''.join(a for a, _ in als)) | set('%&~\u00e9,+\t\n'))
    for _ in range(60000 if full else 5000):
        al = rng.choice([rng.choice(als)[0], rng.choice(als)[0] + rng.choice(als)[0], every])
        q = ''.join(rng.choice(al) for _ in range(rng.randint(2, 9)))
        qs.append(rng.choice(['%s', '%s', '%s', '(%s)', '1+%s', 'a[%s]/b', 'a/%s', 'f(%s)', 'count(%s)', 'if(%s)then 1 else 2', 'for $a in %s return $a', '%s to 3', 'map{%s:1}', '[%s]']) % q)
    ask(rep, pack(doc, list(dict.fromkeys(qs)), [2], size=90), 'character_strings', cls=True)
    # features documented as not implemented: refused wherever they stand, as such or (malformed) as a syntax error
    ty = ['xs:integer', 'element()', 'item()*', 'xs:string?', 'empty-sequence()', 'map(*)', 'node()+']
    feat = ['%s treat as %s' % (x, t) for x in ('1', 'a', '()', '1 + 1', '"s" cast as xs:integer') for t in ty] + ['1 treat as', '1 treat xs:integer', 'treat as xs:integer', '1 treat as 1', '1 treat as xs:integer treat as xs:integer', '1 treat as xs:integer instance of item()', '1 cast as xs:integer treat as item()', 'a treat', 'treat', 'treat/as', 'a/treat', '@treat', 'treat treat as element()']
    for t in ('document-node()', 'document-node(element())', 'document-node(element(r))', 'document-node(schema-element(r))', 'document-node(', 'document-node(a)', 'document-node(element(r)', 'document-node(text())', 'document-node("a")', 'document-node(*)', 'schema-element(r)', 'schema-element(p:r)', 'schema-element()', 'schema-element(*)', 'schema-element("r")', 'schema-element(r', 'schema-element(r, r)', 'schema-attribute(n)', 'schema-attribute()', 'schema-attribute(*)', 'schema-attribute(n, n)', 'namespace-node()', 'namespace-node(a)', 'namespace-node(', 'namespace-node(*)'):
        feat += [x % t for x in ('%s', 'self::%s', '//%s', 'a/child::%s', '@%s', '%s[1]', '. instance of %s', '() instance of %s*', '(1, a) instance of %s+', 'function($x as %s){1}', 'function($x){$x} instance of function(%s) as item()')]
    feat += ['function($x as node()){1} instance of function(namespace-node()) as item()*', 'function($x as namespace-node()){1} instance of function(node()) as item()*', 'function($x as namespace-node()){1} instance of function(namespace-node()) as item()*', 'function($x as text()){1} instance of function(namespace-node()) as item()*', 'function($x as comment()?){1} instance of function(namespace-node()) as item()*']
    feat += ['namespace::' + t for t in ('*', 'a', 'p:*', 'node()', 'namespace-node()', '', '1')] + ['a/namespace::*', '@namespace::a', 'document-node', 'schema-element', 'namespace', 'namespace/a', '$document-node', 'document-node:a', 'schema-element#1', 'document-node#0']
    wrap = ['%s', '(%s)', 'a[%s]', 'count(%s)', 'if (%s) then 1 else 2', 'for $v in %s return $v', 'fn:false() and (%s)', '() ! (%s)', 'map{1: %s}', '[%s]', 'function(){%s}', '%s, 1', '1, %s', '%s)', '(%s', '%s]']
    ask(rep, pack(doc, feat + [rng.choice(wrap) % q for q in feat * (6 if full else 1)], [2, 3], size=60), 'unimplemented_features', cls=True)
    # well-formed expressions only: none may be refused as a syntax error
    qs = [render(toks(rng.choice([2, 3, 3])), rng, rng.choice([0, 0, .3])) for _ in range(12000 if full else 1500)]
    qs = [q for q in qs if len(q) < 600]
    ask(rep, [(doc, rng.choice([2, 3]), qs[i:i + 15]) for i in range(0, len(qs), 15)], 'wellformed_expressions', cls=True)
