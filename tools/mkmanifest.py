#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties claimed in check.py."""
import json, sys, os
sys.path.insert(0, '/verif')
import check
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE_TXT = ('TLC decides every recorded execution of the real library against the TLA+ specification (spec/{mods}); the executions come from generators that '
            'combine exhaustive small spaces with seeded random ones, so assurance is exhaustive for the enumerated spaces and statistical beyond. '
            'Trusts TLC, the JSON bridge and the driver in harness/. Inputs outside the model (see DESIGN.md) are skipped and counted.')
checks, na = [], []
LAWS = set('P%02d' % k for k in (7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19, 22, 23, 25))
MODEL = {**{p: '; TLC model checking of the token reader and tree builder (MCSax), its texts replayed on the library' for p in ('P01', 'P02', 'P03')},
         **{p: '; TLC model checking of documents under edits (MCDom), its histories replayed on the library' for p in ('P04', 'P05', 'P06')},
         'P11': '; TLC model checking of operator grouping (MCExpr), its chains replayed on the library',
         **{p: '; TLC model checking of the grammar against the parser (MCParse), its token sequences replayed on the library' for p in ('P24', 'P26')}}
MODS = lambda p: 'Sax, Dom, TraceDom' if p in ('P01', 'P02', 'P03', 'P04', 'P05') else 'XLex, XParse, XEval, Dom, TraceXp'
for p in props:
    i = p['id']
    if i in check.CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification; TLC trace validation of executions of the real library' + ('; edit histories generated from the specification' if i in ('P04', 'P05', 'P06', 'P07', 'P10', 'P21', 'P25') else '') + MODEL.get(i, '; TLC checks the laws of the property on the specification (MCLaws) and replays both sides' if i in LAWS else ''),
                       'level': 'model_checking', 'level_note': NOTE_TXT.format(mods=MODS(i))})
    else: na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the public API exposes all the abstract state. The checks build harness/ (a path-dependent crate) from the working tree. fix: commits are listed in KNOWN_FINDINGS.md.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
