#!/usr/bin/env python3
"""Plants bugs: verifies each in a scratch copy of /repo and writes /verif/seeded/<id>/.
   plant.py FILE.py [id ...]     FILE defines BUGS = [dict(id, prop, needs, breaks, edits=[(path below src, old, new)], demo=...)]
   demo: list of (xml, xpath, expected text) or Rust statements using check(got, want)."""
import json, os, re, subprocess, sys, shutil
W = '/tmp/plant'
PQ = '/tmp/pq/target/debug/pq'      # prints the answer of the unchanged tree, for demo entries without one
SH = '''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\namxml = { path = "%s" }\\n[workspace]\\n' "$repo" > "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR=$w/target cargo build --offline -q 2>/dev/null || exit 3
timeout 60 ./target/debug/demo
'''
RS = '''#![allow(unused)]
use amxml::dom::*;
use amxml::sax::*;
fn q(xml: &str, xpath: &str) -> String {
    match new_document(xml) {
        Ok(d) => match d.eval_xpath(xpath) { Ok(s) => s.to_string(), Err(_) => "ERROR".to_string() },
        Err(_) => "BAD DOCUMENT".to_string(),
    }
}
fn check(got: &str, want: &str) {
    if got != want {
        println!("got      {:?}\\nexpected {:?}", got, want);
        std::process::exit(1);
    }
}
fn main() {
%s}
'''
def rs(s): return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '\\u{%x}' % ord(c) if c not in '"\\' else '\\' + c for c in s) + '"'
def sh(c, cwd, t=300, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, **k)
def answer(x, y):
    a = subprocess.run([PQ, x, y], capture_output=True, text=True, timeout=60).stdout
    return a
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(W + '/repo'): sh('cp -a /repo %s/repo' % W, '/')
    R = W + '/repo'
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq -e target', R)
    env = dict(os.environ)
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        d = '/verif/seeded/' + b['id']
        if os.path.exists(d) and not want: continue
        sh('git checkout -q -- .', R)
        ok = True
        for p, old, new in b['edits']:
            f = R + '/src/' + p
            s = open(f, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
            if s.count(old) != 1: print('BAD  %s: %d occurrences of %r' % (b['id'], s.count(old), old)); ok = False; break
            s = s.replace(old, new)
            open(f, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        if not ok: continue
        diff = subprocess.run('git diff', shell=True, cwd=R, capture_output=True).stdout
        # removed lines must be original ones
        orig = False
        cur = None
        for l in diff.decode('utf8', 'replace').split('\n'):
            if l.startswith('--- a/'): cur = l[6:].strip(); base = sh('git show ff449cf:' + cur, R).stdout.replace('\r', '').split('\n')
            elif l.startswith('-') and cur and l[1:].rstrip('\r') in base: orig = True
        if not orig: print('BAD  %s: touches no original line' % b['id']); continue
        try: r = sh('cargo test --offline 2>&1 | grep -E "^error|test result|FAILED|failed"', R, 200)
        except subprocess.TimeoutExpired: print('BAD  %s: tests hang' % b['id']); continue
        if 'test result: ok. 163 passed' not in r.stdout and 'test result: ok' not in r.stdout: print('BAD  %s: %s' % (b['id'], r.stdout[:300])); continue
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        body = b['demo'] if isinstance(b['demo'], str) else ''.join('    check(&q(%s, %s), %s);\n' % (rs(x), rs(y), rs(z[0] if z else answer(x, y))) for x, y, *z in b['demo'])
        open(d + '/demo.rs', 'w').write(RS % body)
        open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'wb').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        bad = sh(d + '/demo.sh', R)
        sh('git checkout -q -- .', R)
        good = sh(d + '/demo.sh', R)
        if good.returncode != 0 or bad.returncode in (0, 3):
            print('BAD  %s: demo unchanged %d %s, changed %d %s' % (b['id'], good.returncode, good.stdout, bad.returncode, bad.stdout)); shutil.rmtree(d); continue
        print('OK   %s' % b['id'], bad.stdout.strip().replace('\n', ' ')[:160], flush=True)
main()
