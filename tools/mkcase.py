#!/usr/bin/env python3
"""Writes spec/CaseTables.tla: upper/lower case mappings of code points below
0x530 that change, from Python's copy of the Unicode database."""
up = [(c, [ord(x) for x in chr(c).upper()]) for c in range(0x530) if chr(c).upper() != chr(c)]
lo = [(c, [ord(x) for x in chr(c).lower()]) for c in range(0x530) if chr(c).lower() != chr(c)]
def fmt(t):
    return ',\n    '.join(', '.join('<<%d, <<%s>>>>' % (c, ', '.join(map(str, m))) for c, m in t[i:i+8]) for i in range(0, len(t), 8))
open('/verif/spec/CaseTables.tla', 'w').write('''---------------------------- MODULE CaseTables ----------------------------
(* Generated by tools/mkcase.py: code points below 1328 whose upper (lower)*)
(* case mapping differs from themselves, with the mapping.                 *)
UpperPairs == <<
    %s >>

LowerPairs == <<
    %s >>
=============================================================================
''' % (fmt(up), fmt(lo)))
