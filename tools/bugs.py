#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ and confirms each one.
usage: bugs.py gen [id...]     write patch.diff, demo.sh, demo_test.go, meta.json
       bugs.py confirm [id...] compiles, stable tests pass, demo fails with / passes without
       bugs.py catch [id...]   run the property's check against the patched tree
"""
import json, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = '/verif'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOFLAGS='-mod=mod', GOPROXY='off', CGO_ENABLED='1')
DEMO = '''#!/bin/bash
# Exit 0 when the property holds for the case in demo_test.go.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/util/zz_demo_test.go": "%s/demo_test.go"}}\\n' "$PWD" "$here" > "$tmp/overlay.json"
go test RACE-count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' ./util
'''
def test_src(imports, body):
    std = {'crypto/sha256', 'encoding/gob', 'runtime/debug', 'time', 'log', 'os', 'runtime', 'crypto/hmac', 'crypto/sha512', 'hash/fnv', 'bytes', 'encoding/hex', 'strings', 'testing', 'math/big', 'crypto/rand', 'errors', 'sync', 'fmt', 'encoding/json', 'encoding/binary', 'sort'}
    imps = ['testing'] + list(imports)
    lines = ''.join('\t"%s"\n' % (i if i in std or '.' in i else 'github.com/mearaj/bips/' + i) for i in imps)
    return 'package util_test\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n' % (lines, body.strip('\n') + '\n')

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **k)

def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', dst], check=True)
    sh(['git', 'checkout', '-q', 'HEAD', '--', 'bip32', 'bip39', 'bip44', 'util', 'examples'], dst)

def gen(b):
    d = tempfile.mkdtemp(prefix='bug-'); r = d + '/repo'
    try:
        copy(r)
        for f, old, new in b['edits']:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) != 1: raise SystemExit('%s: %d matches in %s of %r' % (b['id'], s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new))
        fmt = sh(['gofmt', '-l'] + [f for f, _, _ in b['edits']], r).stdout
        if fmt: sh(['gofmt', '-w'] + fmt.split(), r)
        diff = sh(['git', 'diff', '--no-color', '--'] + sorted({f for f, _, _ in b['edits']}), r).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(V, 'seeded', b['id']); os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.sh', 'w').write(DEMO.replace('RACE', '-race ' if b.get('race') else '').replace('\ngo test', '\nGOARCH=386 CGO_ENABLED=0 go test' if b.get('goarch') else '\ngo test')); os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo_test.go', 'w').write(test_src(b['imports'], b['body']))
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    open(o + '/meta.json', 'a').write('\n')

STABLE = None
def stable(r):
    p = sh(['go', 'test', '-json', '-vet=off', '-count=1', './...'], r)
    ok = set()
    for l in p.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return sorted(want - ok)

def confirm(b):
    d = tempfile.mkdtemp(prefix='bug-'); r = d + '/repo'; o = os.path.join(V, 'seeded', b['id'])
    try:
        copy(r)
        demo = os.path.join(d, 'demo'); shutil.copytree(o, demo)
        out = []
        p = sh(['bash', demo + '/demo.sh'], r)
        if p.returncode != 0: out.append('demo fails on the clean tree: ' + (p.stdout + p.stderr)[-600:])
        p = sh(['git', 'apply', o + '/patch.diff'], r)
        if p.returncode != 0: return b['id'], ['does not apply ' + p.stderr]
        p = sh(['go', 'build', './bip32', './bip39', './bip44', './util', './examples/...'], r)
        if p.returncode != 0: return b['id'], ['does not build ' + p.stderr]
        m = stable(r)
        if m: out.append('stable tests fail: %s' % m)
        p = sh(['bash', demo + '/demo.sh'], r)
        if p.returncode == 0: out.append('demo passes with the bug')
        else:
            if ('FAIL\tgithub' not in p.stdout or '[build failed]' in p.stdout) and 'zz_demo_test.go' not in p.stdout and 'panic' not in p.stdout and 'RACE' not in p.stdout: out.append('demo output odd: ' + (p.stdout + p.stderr)[-500:])
        return b['id'], out
    finally:
        shutil.rmtree(d)

def catch(b, props=None, extra=()):
    d = tempfile.mkdtemp(prefix='bug-'); r = d + '/repo'; o = os.path.join(V, 'seeded', b['id'])
    try:
        copy(r)
        p = sh(['git', 'apply', o + '/patch.diff'], r)
        res = []
        for i in props or [b['prop']]:
            p = subprocess.run([V + '/run.sh', i, *extra], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            l = [x for x in p.stdout.splitlines() if 'KNOWN' not in x]
            res.append((i, p.returncode, (l[1:2] or l[:1] or [p.stderr[-300:]])[0][:260]))
        return b['id'], res
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    from bug_list import BUGS
    ids = sys.argv[2:]
    bugs = [b for b in BUGS if not ids or b['id'] in ids]
    if sys.argv[1] == 'gen':
        for b in bugs: gen(b)
    elif sys.argv[1] == 'confirm':
        with ThreadPoolExecutor(4) as ex:
            for i, o in ex.map(confirm, bugs): print(i, 'OK' if not o else o, flush=True)
    elif sys.argv[1] == 'catch':
        for b in bugs:
            i, res = catch(b)
            for p, rc, l in res: print(i, p, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, l, flush=True)
