#!/usr/bin/env python3
"""Mutation campaign: which single-edit mutants of the code does no check notice?
usage: mutants.py MUTANTS.jsonl OUT.jsonl [scale] [every] [offset]
MUTANTS comes from tools/mutate (go run). Mutants that do not build or that the
stable tests notice are put aside; X02 and X04 are left out (own builds)."""
import json, os, re, subprocess, sys, tempfile, shutil, threading, queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import ENV, V, stable, sh
PROPS = dict(
    bip39=['M01', 'M02', 'M03', 'M04', 'M05', 'M06', 'X03', 'X05', 'X01'],
    bip32=['K01', 'K02', 'K03', 'K04', 'K05', 'K06', 'K07', 'D01', 'D02', 'R01', 'R02', 'D03', 'D04', 'A03', 'X01', 'X05', 'X03', 'M06', 'A01', 'A02'],
    bip44=['R03', 'R04', 'X01', 'X05'],
    util=['D03', 'D04', 'A01', 'A02', 'A03', 'K01', 'X03', 'X01', 'X05', 'M02', 'M04', 'K06', 'M06'])
ALL = ['M%02d' % i for i in range(1, 7)] + ['K%02d' % i for i in range(1, 8)] + ['D%02d' % i for i in range(1, 5)] + ['A01', 'A02', 'A03', 'R01', 'R02', 'R03', 'R04', 'X01', 'X03', 'X05', 'X06', 'K08', 'K09', 'K10', 'D05', 'X10', 'X09']

def worker(q, out, scale, lock):
    top = tempfile.mkdtemp(prefix='mut-'); r = top + '/repo'; vv = top + '/verif'
    subprocess.run(['cp', '-a', '/repo', r]); os.makedirs(vv)
    subprocess.run('cp -a /verif/harness /verif/known_findings.txt ' + vv, shell=True)
    ov = {}
    for d in ('ref', 'core', 'checks', 'cmd', 'mine', 'yield'):
        for f in os.listdir(f'{vv}/harness/{d}'): ov[f'{r}/zzverif/{d}/{f}'] = f'{vv}/harness/{d}/{f}'
    json.dump({'Replace': ov}, open(top + '/ov.json', 'w'))
    s = open(r + '/go.mod').read(); s = re.sub(r'(?m)^go 1\.22.*', 'go 1.23.0', s) + '\nrequire pgregory.net/rapid v1.3.0\n'
    open(top + '/go.mod', 'w').write(s)
    shutil.copy(r + '/go.sum', top + '/go.sum')
    open(top + '/go.sum', 'a').write('pgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=\npgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=\n')
    known = None
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(r, m['file']); src = open(p, 'rb').read()
        open(p, 'wb').write(src[:m['Off']] + m['New'].encode() + src[m['End']:])
        try:
            b = sh(['go', 'build', './bip32', './bip39', './bip44', './util'], r)
            if b.returncode: m['res'] = 'nobuild'; continue
            try:
                p2 = subprocess.run(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', './bip32', './bip39', './bip44'], cwd=r, env=ENV, capture_output=True, text=True)
            except Exception: m['res'] = 'tests'; continue
            if p2.returncode: m['res'] = 'tests'; continue
            b = sh(['go', 'build', '-overlay', top + '/ov.json', '-modfile', top + '/go.mod', '-o', top + '/bin', './zzverif/cmd'], r)
            if b.returncode: m['res'] = 'harness: ' + b.stderr[:300]; continue
            first = PROPS[m['file'].split('/')[0]]
            m['res'] = 'SURVIVED'
            for i in first + [x for x in ALL if x not in first]:
                try:
                    p3 = subprocess.run([top + '/bin', '-vprop', i, '-vtier', 'quick', '-vseed', '1', '-vscale', str(scale), '-verif', vv], cwd=top,
                                        env=dict(ENV, VERIF_REPO=r, GOMAXPROCS='2', TMPDIR=top), capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired: m['res'] = 'timeout ' + i; break
                if p3.returncode == 1: m['res'] = i; break
                if p3.returncode != 0 and 'no such property' not in p3.stderr: m['res'] = 'rc%d %s %s' % (p3.returncode, i, p3.stderr[-200:]); break
        finally:
            open(p, 'wb').write(src)
            with lock:
                out.write(json.dumps(m) + '\n'); out.flush()
    shutil.rmtree(top)

if __name__ == '__main__':
    ms = [json.loads(l) for l in open(sys.argv[1])]
    ms = [m for m in ms if not m['file'].endswith('_test.go')]
    scale = float(sys.argv[3]) if len(sys.argv) > 3 else .1
    ev = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    done = set()
    if os.path.exists(sys.argv[2]):
        for l in open(sys.argv[2]):
            m = json.loads(l); done.add((m['file'], m['Off'], m['End'], m['New']))
    q = queue.Queue()
    for m in ms[off::ev]:
        if (m['file'], m['Off'], m['End'], m['New']) not in done: q.put(m)
    lock = threading.Lock(); out = open(sys.argv[2], 'a')
    ts = [threading.Thread(target=worker, args=(q, out, scale, lock)) for _ in range(int(os.environ.get("MUT_WORKERS","4")))]
    for t in ts: t.start()
    for t in ts: t.join()
