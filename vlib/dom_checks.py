"""P01-P05: tokens, references, documents, serialisation, edits."""
import json, random
from . import core, gen_xml as g

def small(s, n=300): return s if len(s) <= n else s[:n] + '...'

def sax_run(rep, docs, label):
    docs = list(dict.fromkeys(docs))
    obs = core.run([core.request('sax', d) for d in docs])
    ses, idx = [], []
    for d, o in zip(docs, obs):
        if o.get('skipped'): continue
        if core.bad(o):
            rep.violation('tokenising %r ended in %s' % (small(d), o), {'request': ['sax', d], 'observed': o}); continue
        ses.append({'k': 'sax', 'txt': core.cps(d), 'toks': o['toks'], 'end': o['end']}); idx.append((d, o))
    r = core.validate('TraceDom', ses)
    oom = set()
    for kind, s, l, what in r.marks:
        d, o = idx[s - 1]
        if kind == 'OOM': oom.add(s); continue
        rep.violation('token %d of %r: specified %s, observed %s' % (l + 1, small(d), core.readable(what)[:300], show_tok(o, l)),
                      {'request': ['sax', d], 'observed': o, 'specified': core.readable(what)})
    rep.add(states=r.distinct, transitions=max(0, r.generated - len(ses)), traces_validated_against_impl=len(ses) - len(oom),
            **{label: len(ses) - len(oom), 'out_of_model': len(oom)})
    for d, o in idx[:: max(1, len(idx) // 3)][:3]: rep.sample({label: small(d, 160), 'tokens': len(o['toks']), 'end': o['end']})
    return r

def show_tok(o, l):
    if l < len(o['toks']):
        t = o['toks'][l]
        return json.dumps({'k': t['k'], 'n': core.uncps(t['n']), 'v': core.uncps(t['v']), 'a': [[core.uncps(a['n']), core.uncps(a['v'])] for a in t['a']]}, ensure_ascii=False)[:300]
    return o['end']

def dom_run(rep, docs, label, wants, load=True):
    """wants: labels of views that count; load: does acceptance/the tree count"""
    docs = list(dict.fromkeys(docs))
    obs = core.run([core.request('dom', d) for d in docs])
    ses, idx = [], []
    for d, o in zip(docs, obs):
        if o.get('skipped'): continue
        if core.bad(o):
            rep.violation('building or showing %r ended in %s' % (small(d), o), {'request': ['dom', d], 'observed': o}); continue
        ses.append(dict({'k': 'dom', 'txt': core.cps(d)}, **o)); idx.append((d, o))
    r = core.validate('TraceDom', ses)
    oom = set(); skipped = 0
    for kind, s, l, what in r.marks:
        d, o = idx[s - 1]
        if kind == 'OOM': oom.add(s); continue
        if l == 0:
            if load:
                rep.violation('document %r: specified %s, observed %s' % (small(d), core.readable(what)[:300], 'tree' if o['ok'] else 'error'),
                              {'request': ['dom', d], 'observed': {'ok': o['ok'], 'nodes': o.get('nodes')}, 'specified': core.readable(what)})
            else: skipped += 1
        elif what.strip('"') in wants:
            v = what.strip('"')
            got = o['views'][l - 1].get(v) if v != 'reparse' else o['rep']
            rep.violation('document %r, node %d: %s differs from the specification: %s' % (small(d), l, v, core.uncps(got) if isinstance(got, list) and v in ('ts', 'ps', 'ix', 'ln', 'sn', 'ns', 'db') else str(got)[:300]),
                          {'request': ['dom', d], 'view': v, 'node': l, 'observed': got})
    rep.add(states=r.distinct, transitions=max(0, r.generated - len(ses)), traces_validated_against_impl=len(ses) - len(oom) - skipped,
            **{label: len(ses) - len(oom), 'out_of_model': len(oom), 'accepted_documents': sum(1 for d, o in idx if o['ok'])})
    for d, o in idx[:: max(1, len(idx) // 3)][:3]: rep.sample({label: small(d, 160), 'accepted': o['ok']})
    return r

def app_run(rep, docs, label):
    """the sample program on files: documents, broken ones, other bytes, none"""
    files = [d.encode('utf8') for d in docs] + [b'<a>\xff</a>', b'\xc3', b'<a>\xed\xa0\x80</a>', None]
    obs = core.run_app(files)
    ses, idx = [], []
    for i, o in enumerate(obs):
        t = docs[i] if i < len(docs) else ''
        if core.bad(o): rep.violation('the sample program did not end on %r' % small(t), {'file': t}); continue
        ses.append({'k': 'app', 'file': 'text' if i < len(docs) else 'none' if files[i] is None else 'bytes', 'txt': core.cps(t), 'rc': o['rc'], 'out': o['out']}); idx.append(t)
    r = core.validate('TraceDom', ses)
    oom = 0
    for kind, s, l, what in r.marks:
        if kind == 'OOM': oom += 1; continue
        e = ses[s - 1]
        rep.violation('the sample program on a file (%s) %r: exit %d, printed %r; specified %s' % (e['file'], small(idx[s - 1]), e['rc'], small(core.uncps(e['out'])), core.readable(what)[:300]),
                      {'file': idx[s - 1], 'rc': e['rc'], 'out': e['out'], 'specified': core.readable(what)})
    rep.add(states=r.distinct, transitions=max(0, r.generated - len(ses)), traces_validated_against_impl=len(ses) - oom, **{label: len(ses) - oom, 'out_of_model': oom})

# ------------------------------------------------------------------ texts of the model
# alphabets of MCSax, which reads every text over them of up to N letters
ALPHABETS = {
  'P01': [(['<', 'a', '>', '/', ' '], '', ''), (['-', '>', 'a', '<'], '<!--', '-->'), ([']', '>', '&lt;', '\r'], '<a><![CDATA[', ']]></a>'), (['b', '=', '"', "'", ' '], '<a ', '></a>'), (['?', '>', 'a', ' '], '<?', '?>')],
  'P02': [(['&', 'a', 'amp;', ';', '#', '3', '8', 'x'], '<a>', '</a>'), (['&#', '13;', '\r', '\n', '&lt;'], '<a b="', '"/>'), (['&gt;', ']]', '>', '&#xD;', '\r\n'], '<a>', '</a>')],
  'P03': [(['<a>', '</a>', '<b/>', 't', '</b>'], '', ''), (['<a>', '</a>', '<b>', '</b>', '<!--c-->'], '<r>', '</r>'), (['<p:a>', '</p:a>', '</a>', '<a>', ' '], '', '')]}
def model_sax(rep, tier, prop):
    """MCSax: the properties of the reader hold for every text over the
    alphabets; the texts it read are read by the real code."""
    ses = [{'alpha': [core.cps(x) for x in a], 'pre': core.cps(b), 'post': core.cps(e)} for a, b, e in ALPHABETS[prop]]
    texts = []
    r = core.validate('MCSax', ses, cfg='MCSaxDeep' if tier == 'thorough' else 'MCSax')
    for kind, s, l, w in r.marks: texts.append(core.uncps(json.loads(json.loads(w))))
    rep.add(model_states=r.distinct, model_transitions=r.generated, model_texts=len(texts))
    (dom_run(rep, texts, 'texts_of_the_model', {'rt', 're', 'fc', 'nc', 'av'}) if prop == 'P03' else sax_run(rep, texts, 'texts_of_the_model'))

# ------------------------------------------------------------------ P01
PREFIX = ['', '<', '<a', '<a ', '<a b', '<a b=', '<a b="', "<a b='x'", '<a/', '</', '</a', '<!', '<!-', '<!--', '<!---', '<![', '<![CDATA', '<![CDATA[', '<![CDATA[]', '<?', '<?a', '<?a ', '<?a ?', '<!D', '<!D<', 'x']
ALPHA = ['<', '>', '/', 'a', '"', "'", '=', ' ', '!', '-', '?', ']', '[', ':', '1']

def p01(rep, tier, rng):
    full = tier == 'thorough'
    model_sax(rep, tier, 'P01')
    docs = []
    for p in PREFIX:
        docs += [p + s for s in g.small_texts(ALPHA, 3 if full else 2)]
    if full: docs += list(g.small_texts(ALPHA[:12], 4))
    sax_run(rep, docs, 'exhaustive_small_texts')
    docs = []
    for c in g.name_boundaries():
        ch = chr(c)
        docs += ['<%s/>' % ch, '<a%s b%s="1"/>' % (ch, ch), '</a%s>' % ch, '<a %s="">' % ch, '<?a%s x?>' % ch]
    if not full: docs = docs[::2] if rng.random() < .5 else docs[1::2]
    sax_run(rep, docs, 'name_boundary_texts')
    n = 12000 if full else 2500
    docs = [g.document(rng) for _ in range(n)]
    docs += [g.broken(rng, g.document(rng, g.Cfg(maxnodes=10))) for _ in range(2 * n)]
    sax_run(rep, docs, 'random_texts')

# ------------------------------------------------------------------ P02
FRAG = ['&amp;', '&lt;', '&gt;', '&quot;', '&apos;', '&#38;', '&#x26;', '&#60;', '&#x3C;', '&#65;', '&#x41;', '&#x3b;', '&#35;', '&#120;', '&foo;', '&ampx;',
        'amp;', 'lt;', '#65;', '#x41;', ';', '#', 'a', '&#13;', '&#10;', '&#x1D11E;', '&#xD800;', '&#1114112;', '&#x10FFFF;', '&#4294967361;', '\r', '\n', '&#x00000041;', 'gt;', 'quot;', 'apos;', '38;', 'x26;', '& ', '&1', ' & ', '&b ', '&;', '&\n', '&-', '&b', '&lt ', '&amp,']

def p02(rep, tier, rng):
    full = tier == 'thorough'
    model_sax(rep, tier, 'P02')
    texts = [''.join(x) for x in __import__('itertools').product(FRAG, repeat=2)]
    tri = [''.join(rng.choice(FRAG) for _ in range(rng.randint(3, 6))) for _ in range(12000 if full else 2500)]
    if full: tri += [''.join(x) for x in __import__('itertools').product(FRAG[:25], repeat=3)]
    docs = []
    for i, t in enumerate(texts + tri):
        q = '"' if i % 2 else "'"
        docs.append('<a b=%s%s%s>%s</a>' % (q, t, q, t) if i % 3 else t)
    for t in tri[:len(tri) // 4]:
        docs.append('<a><![CDATA[%s]]><!--%s--><?p %s?><!D %s><b c="%s"/></a>' % (t, t, t, t.replace('\n', ' '), t))
    for c in range(1, 0x300): docs.append('<a b="&#%d;">&#x%x;</a>' % (c, c))
    for _ in range(600): 
        c = rng.randint(1, 0x10ffff + 3000); docs.append('<a b="&#x%X;">&#%d;</a>' % (c, c))
    docs += ['x%sy%sz' % (a, b) for a in g.NLS + ['&#13;', '&#10;'] for b in g.NLS + ['&#xD;', '&#xA;']]
    docs += ['<a%sb="%s"%s><!--%s--><![CDATA[%s]]><?p %sx%s?></a%s>' % ((a,) * 8) for a in g.NLS]
    sax_run(rep, docs, 'reference_texts')
    n = 6000 if full else 1200
    sax_run(rep, [g.document(rng, g.Cfg(refs=.6, maxnodes=8)) for _ in range(n)], 'random_texts')

# ------------------------------------------------------------------ P03
def nest(rng):
    """short strings of tags"""
    return ''.join(rng.choice(['<a>', '</a>', '<b>', '</b>', '<a/>', '<b x="1"/>', 't', '<ab>', '</ab>', '<p:a>', '</p:a>', '<!--c-->', '<?p i?>', '<![CDATA[]]>', '<!D>', '<A>', '</A>', '</a >', ' '])
                   for _ in range(rng.randint(1, 9)))

def p03(rep, tier, rng):
    full = tier == 'thorough'
    model_sax(rep, tier, 'P03')
    docs = [''.join(x) for k in range(5 if not full else 6) for x in __import__('itertools').product(['<a>', '</a>', '<b>', '</b>', '<a/>', 't'], repeat=k)]
    n = 8000 if full else 1500
    docs += [nest(rng) for _ in range(n)]
    for _ in range(n):
        d = g.document(rng, g.Cfg(maxnodes=25, refs=.1, depth=5))
        docs.append(d)
        docs.append(g.retag(rng, d))
        if rng.random() < .5: docs.append(g.broken(rng, g.document(rng, g.Cfg(maxnodes=8))))
    dom_run(rep, docs, 'documents', {'rt', 're', 'fc', 'nc', 'av'})

# ------------------------------------------------------------------ P04
def p04(rep, tier, rng):
    full = tier == 'thorough'
    n = 9000 if full else 1800
    docs = [g.document(rng, g.Cfg(maxnodes=20)) for _ in range(n)]
    docs += [g.document(rng, g.Cfg(maxnodes=10, refs=.6, misc=.5)) for _ in range(n)]
    for a in FRAG:
        for b in FRAG[:20]:
            docs.append('<a b="%s%s">%s%s<![CDATA[%s]]></a>' % (a, b, a, b, b))
    for c in list(range(1, 0x180)) + [0x2028, 0x85, 0xfffd, 0x1d11e]:
        docs.append('<r a="&#%d;">&#%d;<b/>&#%d;x</r>' % (c, c, c))
    dom_run(rep, docs, 'documents', {'ts', 'ps', 'ix', 'db', 'reparse'}, load=False)
    ap = [g.document(rng, g.Cfg(maxnodes=12)) for _ in range(1500 if full else 200)]
    ap += [g.broken(rng, d) for d in ap[::3]] + ['', ' ', '<a/>', '<a>\r\n</a>', 'x', '<!--c-->', '<a/>\n\n', '<é>𝄞</é>', '<a b="&#10;"/>']
    app_run(rep, [d for d in dict.fromkeys(ap) if len(d) < 4000], 'files_printed')
    mut_run(rep, rng, 400 if not full else 2500, ('text',))
    model_dom(rep, tier, ('text',), 'P04')

# ------------------------------------------------------------------ P05
MNAMES = ['a', 'b', 'id', 'p:a', 'xml:lang']
MVALS = ['', '1', 'x y', '<&>"\'', 'é', '&amp;', '\r\n\t', ']]>', 'v"']

EACH = ['//*', '//a', '//text()', '//@*', '//node()', '*', '..', '.', 'node()', '//a/..', '(//b, //a)', '(//*, //*)', 'reverse(//*)', '//a[1]', 'preceding::node()', 'following::*', '//*[last()]', '1', '(1, //a)', '//', '//b[', '//* + 1', 'descendant::a | descendant::b', 'for $x in //* return $x/*',
        '//*[a]', '//*[@*]', '//comment() | //text()', 'ancestor-or-self::node()', '//*[not(*)]', '/node()', '//@a/..', 'following-sibling::node()', 'preceding-sibling::node()', '//*[position() > 1]', '//a//b', '//node()[1]', '(//node())[last()]', '//*/node()[last()]']
def histories(rng, n, maxnodes, steps, qs=None, docs=None, names=None, eqs=()):
    """edit histories generated by TLC from the specification (DomGen)"""
    ses = []
    small_cfg = g.Cfg(maxnodes=7, depth=3, width=3, refs=.1, misc=.4, names=['a', 'b', 'c', 'p:a'], anames=['a', 'b', 'id'], attrs=2, tlen=2)
    for _ in range(n):
        while True:
            a, b = (docs(), docs()) if docs else (g.document(rng, small_cfg), g.document(rng, small_cfg))
            if '&#0' in a + b or (qs or eqs) and '<?xml' in a + b: continue
            break
        ses.append({'txt': core.cps(a), 'txt2': core.cps(b), 'max': maxnodes, 'names': [core.cps(x) for x in names or MNAMES], 'vals': [core.cps(x) for x in MVALS], 'qs': [core.cps(q) for q in qs(a, b)] if qs else [], 'eqs': [core.cps(q) for q in eqs],
                    'rs': [[rng.randint(0, 1 << 20) for _ in range(4)] for _ in range(rng.randint(1, steps))], 'a': a, 'b': b})
    inp = [{k: v for k, v in s.items() if k not in ('a', 'b')} for s in ses]
    r = core.validate('DomGen', inp)
    out = []
    for kind, s, l, w in r.marks:
        h = json.loads(json.loads(w))
        out.append((ses[s - 1]['a'], ses[s - 1]['b'], h))
    out.sort(key=lambda x: (x[0], x[1], json.dumps(x[2])))
    return out, r

def opline(o, quiet):
    q = '~' if quiet else ''
    t = lambda a: '.'.join(map(str, a))
    if o['op'] == 'query': return 'query %d %s' % (o['a'], t(o['x']))
    if o['op'] == 'set': return '%sset %d %s %s' % (q, o['a'], t(o['n']), t(o['v']))
    if o['op'] == 'unset': return '%sunset %d %s' % (q, o['a'], t(o['n']))
    if o['op'] == 'each': return '%seach %d %s %s' % (q, o['a'], t(o['x']), o['act'] + (' %d' % o['b'] if 'b' in o else ''))
    if o['op'] == 'keep': return '%skeep %d' % (q, o['a'])
    return '%s%s %d %d' % (q, o['op'], o['a'], o['b'])

def mut_run(rep, rng, n, wants, maxnodes=40, steps=12, qs=None, docs=None, names=None, eqs=()):
    hs, gr = histories(rng, n, maxnodes, steps, qs, docs, names, eqs)
    rep.add(generator_states=gr.distinct)
    replay(rep, rng, hs, wants)

# Start documents of MCDom, which explores every sequence of edits from them.
PAIRS = [('<a x="1">t<b/></a>', '<c y="2"/>'), ('<a x="1"><b/></a>', '<c>u</c>'), ('<a x="1">t</a>', '<c/>'), ('<a><!--k--><b/></a>', '<c/>'),
         ('<a>t<?p i?></a>', '<c y="2">u</c>'), ('<a y="&lt;">t<![CDATA[u]]></a>', '<c/>'), ('<!--k--><a/>', '<c><d/></c>'), ('<a><b>t</b></a>', '<c x="1" y="2"/>')]
def model_dom(rep, tier, wants, prop):
    """MCDom explores all edits from small documents; what it prints, each
    history with its last edit, is replayed on the real code."""
    rng = random.Random('dom %s %d' % (prop, rep.seed)); full = tier == 'thorough'
    r = None
    for k, (cfg, pairs, most) in enumerate([('MCDomQuick', [PAIRS[(rep.seed + sum(map(ord, prop))) % len(PAIRS)]], 500)] if not full else
                                           [('MCDom', rng.sample(PAIRS, 3), 9000), ('MCDomDeep', [PAIRS[2]], 0)]):
        r = core.validate('MCDom', [{'txt': core.cps(a), 'txt2': core.cps(b)} for a, b in pairs], cfg=cfg)
        hs = [(pairs[s - 1][0], pairs[s - 1][1], json.loads(json.loads(w))) for kind, s, l, w in r.marks]
        rep.add(model_states=r.distinct, model_transitions=r.generated, model_histories=len(hs))
        if not most: continue
        hs.sort(key=lambda x: (x[0], x[1], json.dumps(x[2])))
        short = [h for h in hs if len(h[2]) == 1]; rest = [h for h in hs if len(h[2]) > 1]
        replay(rep, rng, rng.sample(short, min(len(short), most // 4)) + rng.sample(rest, min(len(rest), most)), wants)

def replay(rep, rng, hs, wants):
    reqs, ok = [], []
    for a, b, h in hs:
        quiet = [rng.random() < .25 for _ in h]
        if h: quiet[-1] = False
        reqs.append((a, b, h, quiet, [opline(o, q) for o, q in zip(h, quiet)]))
    obs = core.run([core.request('mut', a, b, *ol) for a, b, h, q, ol in reqs])
    ses, idx = [], []
    for rq, o in zip(reqs, obs):
        a, b, h, quiet, ol = rq
        if o.get('skipped') or o.get('docerr'): continue
        if core.bad(o):
            if 'panic' in wants: rep.violation('history %s on %r, %r ended in %s' % (ol, a, b, o), {'request': ['mut', a, b] + ol, 'observed': o})
            continue
        evs = []
        for i, e in enumerate(o['evs']):
            if i == 0: evs.append(e); continue
            x = dict(h[i - 1]); x['panic'] = bool(e.get('panic')); x['look'] = bool(e.get('look'))
            if x['look'] or x['op'] in ('query', 'each'): x.update(e)
            evs.append(x)
        ses.append({'k': 'mut', 'txt': core.cps(a), 'txt2': core.cps(b), 'evs': evs}); idx.append((rq, o))
    r = core.validate('TraceDom', ses)
    oom = 0
    for kind, s, l, what in r.marks:
        rq, o = idx[s - 1]
        if kind == 'OOM': oom += 1; continue
        if kind == 'STOP': continue
        m = __import__('re').match(r'<<\s*"(\w+)"', what)
        lab = m.group(1) if m else 'state'
        if lab == 'count': lab = 'state'
        if l == 0 and lab == 'state': continue      # parsing, not editing
        if lab not in wants: continue
        rep.violation('documents %r, %r, history %s: after call %d the %s differs; specified %s' % (rq[0], rq[1], rq[4][:l], l, lab, core.readable(what)[:400]),
                      {'request': ['mut', rq[0], rq[1]] + rq[4][:l], 'after_call': l, 'what': lab, 'specified': core.readable(what), 'observed': o['evs'][l] if l < len(o['evs']) else None})
    rep.add(states=r.distinct, transitions=max(0, r.generated - len(ses)), traces_validated_against_impl=len(ses) - oom, edit_histories=len(ses) - oom,
            edits=sum(len(x[0][2]) for x in idx))
    kinds = {}
    for x in idx:
        for o in x[0][2]: kinds[o['op']] = kinds.get(o['op'], 0) + 1
    for k, v in kinds.items(): rep.add(**{'edits_' + k: v})
    for rq, o in idx[:2]: rep.sample({'documents': [rq[0], rq[1]], 'history': rq[4]})

def p05(rep, tier, rng):
    full = tier == 'thorough'
    mut_run(rep, rng, 6000 if full else 1200, ('state', 'roots', 'panic'))
    mut_run(rep, rng, 1500 if full else 300, ('state', 'roots', 'panic'), maxnodes=60, steps=30)
    mut_run(rep, rng, 1500 if full else 150, ('state', 'roots', 'panic', 'visited'), maxnodes=60, steps=15, eqs=EACH)
    model_dom(rep, tier, ('state', 'roots', 'panic'), 'P05')
