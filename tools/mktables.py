#!/usr/bin/env python3
"""Writes spec/NameTables.tla: the Letter/CombiningChar/Digit/Extender productions
of XML 1.0 (4th edition) appendix B, obtained from the expat parser bundled with
Python (an implementation independent of amxml): a code point is a name-start
character iff expat accepts <c/>, a name character iff it accepts <ac/>."""
import xml.parsers.expat as ex
def ok(s):
    p=ex.ParserCreate()
    try: p.Parse(s.encode('utf-8'),True); return True
    except Exception: return False
def ranges(f):
    out=[]
    for c in range(128,0x10000):
        if 0xd800<=c<0xe000: continue
        if f(c):
            if out and out[-1][1]==c-1: out[-1][1]=c
            else: out.append([c,c])
    return out
st=ranges(lambda c: ok('<%s/>'%chr(c)))
nm=ranges(lambda c: ok('<a%s/>'%chr(c)))
def fmt(r):
    return ',\n    '.join(', '.join('<<%d,%d>>'%tuple(x) for x in r[i:i+8]) for i in range(0,len(r),8))
open('/verif/spec/NameTables.tla','w').write('''---------------------------- MODULE NameTables ----------------------------
(* Generated by tools/mktables.py: name characters of XML 1.0 (4th ed.),   *)
(* non-ASCII part, as ascending ranges of code points.                     *)
NameStartRanges == <<
    %s >>

NameCharRanges == <<
    %s >>
=============================================================================
'''%(fmt(st),fmt(nm)))
print(len(st),len(nm))
