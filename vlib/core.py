"""Machinery shared by the checks: build the driver from /repo's working tree,
run requests on the real code, let TLC decide whether the observations are
behaviours of the specification, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('AMXML_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(HARNESS, 'target')
BIN = os.path.join(TARGET, 'debug', 'amxml-conform')
WORK = os.path.join(VERIF, 'work')
NCPU = min(8, os.cpu_count() or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ToolError(Exception): pass

def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    e['CARGO_NET_OFFLINE'] = 'true'; e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_TARGET_DIR'] = TARGET
    e.pop('RUSTC_WRAPPER', None); e.pop('RUSTFLAGS', None)
    return e

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(HARNESS, 'src')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(HARNESS, 'Cargo.toml')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()

def build():
    """Always builds from the working tree; sources whose content differs from
    that of the last build are rebuilt whatever their time stamps say."""
    stamp = os.path.join(TARGET, 'content.sha256')
    h = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h and os.path.exists(TARGET):
        for p in ('amxml', 'amxml-conform'):
            subprocess.run(['cargo', 'clean', '--offline', '-p', p], cwd=HARNESS, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 or not os.path.exists(BIN):
        raise ToolError('cannot build the driver:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
    open(stamp, 'w').write(h)

APP = os.path.join(TARGET, 'app', 'debug', 'amxml')
def build_app():
    """the sample program of the crate, from the working tree"""
    e = env(); d = os.path.join(TARGET, 'app'); e['CARGO_TARGET_DIR'] = d
    stamp = os.path.join(d, 'content.sha256'); h = tree_hash()
    if os.path.exists(d) and (not os.path.exists(stamp) or open(stamp).read() != h):
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'amxml'], cwd=REPO, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--bin', 'amxml'], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 or not os.path.exists(APP):
        raise ToolError('cannot build the sample program:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
    open(stamp, 'w').write(h)

def run_app(files):
    """files: bytes of a file, or None for one that does not exist; what the
    sample program did with each"""
    build_app()
    os.makedirs(WORK, exist_ok=True)
    with tempfile.TemporaryDirectory(dir=WORK) as wd:
        def one(i):
            p = os.path.join(wd, '%d.xml' % i)
            if files[i] is not None: open(p, 'wb').write(files[i])
            try: r = subprocess.run([APP, p], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, cwd=wd)
            except subprocess.TimeoutExpired: return {'hang': True}
            if os.path.exists(p): os.unlink(p)
            return {'rc': r.returncode, 'out': cps(r.stdout.decode('utf8', 'replace'))}
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, range(len(files))))

# ---------------------------------------------------------------- real code
def esc(s):
    return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r').replace('\0', '\\0')
def request(*fields): return '\t'.join(esc(str(f)) for f in fields)
def cps(s): return [ord(c) for c in s]
def uncps(a): return ''.join(chr(c) if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000 else '?' for c in a)

def _run_chunk(lines, out, budget):
    """out: list to fill, one observation (dict) per line"""
    i = 0
    e = dict(os.environ); e['REQ_BUDGET_S'] = str(budget)
    while i < len(lines):
        with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as fout:
            fin.write(('\n'.join(lines[i:]) + '\n').encode('utf8')); fin.seek(0)
            p = subprocess.Popen([BIN], stdin=fin, stdout=fout, stderr=subprocess.DEVNULL, env=e,
                                 preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_AS, (8 << 30, 8 << 30)))
            p.wait()
            fout.seek(0)
            got = fout.read().decode('utf8', 'replace').split('\n')
        if got and got[-1] == '': got.pop()
        ok = 0
        for g in got:
            try: out.append(json.loads(g))
            except ValueError: break
            ok += 1
        i += ok
        if i < len(lines) and not (ok and out[-1].get('hang')):
            # the process died in this request (stack overflow, abort, out of memory)
            out.append({'crash': True, 'rc': p.returncode}); i += 1
            if len([1 for o in out if o.get('crash') or o.get('hang')]) > 25:
                while i < len(lines): out.append({'skipped': True}); i += 1
        elif i < len(lines) and len([1 for o in out if o.get('hang')]) > 5:
            while i < len(lines): out.append({'skipped': True}); i += 1

def run(lines, budget=10):
    n = max(1, min(NCPU, len(lines)))
    chunks = [lines[k::n] for k in range(n)]
    outs = [[] for _ in range(n)]
    ts = [threading.Thread(target=_run_chunk, args=(chunks[k], outs[k], budget)) for k in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()
    res = [None] * len(lines)
    for k in range(n):
        if len(outs[k]) != len(chunks[k]): raise ToolError('driver answered %d of %d requests' % (len(outs[k]), len(chunks[k])))
        res[k::n] = outs[k]
    return res

def bad(o):
    """observation of a run that did not end in a value or an error"""
    return o.get('crash') or o.get('hang') or o.get('panic')

# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self): self.marks = []; self.generated = 0; self.distinct = 0; self.out = ''; self.rc = 0; self.wall = 0; self.coverage = {}

def tlc(module, cfg=None, trace=None, workers=NCPU, timeout=840, extra=(), heap='10g', envx=None, stack='512m'):
    os.makedirs(WORK, exist_ok=True)
    wd = tempfile.mkdtemp(prefix='tlc-', dir=WORK)
    e = dict(os.environ)
    if trace: e['TRACE'] = trace
    if envx: e.update(envx)
    cmd = ['java', '-Xss' + stack, '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', JAR, 'tlc2.TLC', '-metadir', os.path.join(wd, 'st'), '-noGenerateSpecTE',
           '-workers', str(workers), '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    t0 = time.time()
    outp = os.path.join(wd, 'out.txt')
    try:
        with open(outp, 'wb') as f:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = -9
    r = TlcResult(); r.rc = rc; r.wall = time.time() - t0
    r.out = open(outp, encoding='utf8', errors='replace').read()
    shutil.rmtree(wd, ignore_errors=True)
    m = re.findall(r'(\d+) states generated[^\n]*?(\d+) distinct states found', r.out)
    if m: r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    # marks: tuples printed by Say, possibly over several lines
    for mm in re.finditer(r'<<\s*"@@",\s*"(\w+)",\s*(\d+),\s*(\d+),\s*(.*?)(?=\n<<\s*"@@"|\nModel checking|\nFinished|\nComputed |\nProgress|\nThe |\nError|\n@!@|\Z)', r.out, re.S):
        r.marks.append((mm.group(1), int(mm.group(2)), int(mm.group(3)), re.sub(r'\s+', ' ', mm.group(4)).rstrip('> ').strip()))
    return r

def validate(module, sessions, timeout=840, cfg=None, heap='10g'):
    """sessions: list of dicts. Returns marks (kind, session index, event, what) and stats."""
    os.makedirs(WORK, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix='trace-', suffix='.ndjson', dir=WORK)
    with os.fdopen(fd, 'w') as f:
        for s in sessions: f.write(json.dumps(s, separators=(',', ':')) + '\n')
    try:
        r = tlc(module, cfg=cfg, trace=path, timeout=timeout, heap=heap)
    finally:
        os.unlink(path)
    if r.rc != 0 or 'Model checking completed. No error' not in r.out:
        keep = os.path.join(WORK, 'tlc-failed-%s.txt' % module)
        open(keep, 'w').write(r.out)
        raise ToolError('TLC failed on %s (rc %s), see %s:\n%s' % (module, r.rc, keep, r.out[-1500:]))
    r.marks = list(dict.fromkeys(r.marks))
    return r

TLAINTS = re.compile(r'<<([\d, ]*)>>')
def readable(w):
    """code point tuples in a TLC value shown as text"""
    def f(m):
        try: a = [int(x) for x in m.group(1).split(',')] if m.group(1).strip() else []
        except ValueError: return m.group(0)
        if a and all(c in (9, 10, 13) or 32 <= c < 0x110000 for c in a): return '<<%s>>=%s' % (m.group(1), json.dumps(uncps(a), ensure_ascii=False))
        return m.group(0)
    return TLAINTS.sub(f, w)
