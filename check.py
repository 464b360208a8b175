#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run one check
   check.py replay <file>                 show a replay file's request on the current tree"""
import json, os, random, subprocess, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, report, dom_checks, xp_checks, sizes

CHECKS = {'P01': dom_checks.p01, 'P02': dom_checks.p02, 'P03': dom_checks.p03, 'P04': dom_checks.p04, 'P05': dom_checks.p05}
for _n in range(6, 27):
    if hasattr(xp_checks, 'p%02d' % _n): CHECKS['P%02d' % _n] = getattr(xp_checks, 'p%02d' % _n)

def main():
    if sys.argv[1] == 'replay':
        core.build()
        d = json.load(open(sys.argv[2]))
        print(d['what']); rq = d['data'].get('request')
        if rq: print(json.dumps(core.run([core.request(*rq)])[0]))
        return 0
    if sys.argv[1] == 'setup':
        core.build(); core.build_app(); print('driver built'); return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rng = random.Random(zlib.crc32(('%s %d' % (prop, seed)).encode()))
    rep = report.Report(prop, tier, seed, 'model_checking')
    core.build()
    CHECKS[prop](rep, tier, rng)
    sizes.run(prop, rep, tier)
    return rep.finish()

if __name__ == '__main__':
    try: sys.exit(main())
    except core.ToolError as e:
        print('TOOL ERROR:', e); sys.exit(2)
