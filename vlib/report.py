"""Findings, known findings, evidence."""
import json, os, re, time
from .core import VERIF, WORK

KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.md')

def known_findings(prop):
    """Lines `- known: property=<id> key=<key> <what fails>`; key is a string
    the check gives the specific failing input."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'- known: property=(\w+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).strip()
    return out

class Report:
    def __init__(self, prop, tier, seed, level, budget=900):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time(); self.viol = []; self.cov = {}; self.assume = []; self.samples = []
        self.known = known_findings(prop); self.seen_known = set()
        self.nviol = 0
    def add(self, **k):
        for n, v in k.items(): self.cov[n] = self.cov.get(n, 0) + v
    def sample(self, s):
        if len(self.samples) < 8: self.samples.append(s)
    def violation(self, what, data, key=None):
        """what: one line; data: everything needed to replay"""
        if key and key in self.known:
            self.seen_known.add(key); return
        self.nviol += 1
        if len(self.viol) < 40: self.viol.append((what, data))
    def finish(self, replays=3):
        for k in sorted(self.known):
            if k in self.seen_known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[k]))
        d = os.path.join(WORK, 'replay'); os.makedirs(d, exist_ok=True)
        for i, (what, data) in enumerate(self.viol[:replays]):
            p = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, i + 1))
            json.dump({'property': self.prop, 'what': what, 'data': data}, open(p, 'w'), ensure_ascii=False, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            print('   ' + what[:600])
        if self.nviol > replays: print('   ... %d violations in all' % self.nviol)
        cov = dict(self.cov); cov['samples'] = self.samples or ['none']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': self.nviol}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), ensure_ascii=False, indent=1)
        print('%s %s: %s' % (self.prop, self.tier, 'VIOLATED' if self.nviol else 'held on everything explored'),
              {k: v for k, v in cov.items() if not isinstance(v, (list, str))})
        return 1 if self.nviol else 0
