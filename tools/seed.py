#!/usr/bin/env python3
"""Make and confirm a planted bug.  usage: seed.py SPEC.py...   (SPEC defines id, prop, file, edits=[(old,new)], needs, breaks, demo (C++ text))
Confirms in a scratch copy of /repo: builds, stable tests pass, demo passes without and fails with the change."""
import sys, os, subprocess, json, shutil, tempfile, runpy, re
SEEDS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
DEMO = '''#!/bin/bash
# run with cwd = the source tree; exit 0 if the behaviour is right
H="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
%s -std=c++20 -O1 -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -include cstdint -include algorithm -pthread -I"$PWD" "$H/demo.cpp" -o "$T/demo" || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
def sh(c, cwd): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def main(spec):
    S = runpy.run_path(spec); d = os.path.join(SEEDS, S['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed'); r = os.path.join(w, 'repo')
    try:
        sh(f'cp -a /repo {r} && git -C {r} checkout -q -- .', '/')
        open(d + '/demo.cpp', 'w').write(S['demo']); open(d + '/demo.sh', 'w').write(DEMO % S.get('cxx', 'g++')); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=S['prop'], needs=S['needs'], what_it_breaks=S['breaks']), open(d + '/meta.json', 'w'), indent=1)
        o = sh(f'bash {d}/demo.sh', r)
        if o.returncode: print(S['id'], 'DEMO FAILS ON UNCHANGED TREE', o.returncode, (o.stdout + o.stderr)[-1500:]); return 1
        edits = S['edits'] if isinstance(S['edits'][0][0], str) and len(S['edits'][0]) == 3 else [(S['file'], a, b) for a, b in S['edits']]
        for f, a, b in edits:
            t = open(r + '/' + f, newline='').read()
            if '\r\n' in t: a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            if t.count(a) != 1: print(S['id'], 'edit matches', t.count(a), 'times:', a); return 1
            open(r + '/' + f, 'w', newline='').write(t.replace(a, b))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout; open(d + '/patch.diff', 'wb').write(diff)
        # blame
        base = sh('git rev-list --max-parents=0 HEAD', r).stdout.strip(); f = None; ln = 0; orig = mine = 0
        for l in diff.decode('utf8', 'replace').split('\n'):
            if l.startswith('--- a/'): f = l[6:].strip()
            elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
            elif l.startswith('-') and f:
                ln += 1; b = sh(f'git blame -l -s -L {ln},{ln} HEAD -- {f}', r).stdout
                if base[:30] in b[:42]: orig += 1
                else: mine += 1
            elif l.startswith(' '): ln += 1
        for n in ('common', 'build', 'test'): open(f'{w}/{n}.sh', 'w').write(open(f'/opt/vp/{n}.sh').read().replace('REPO=/repo', 'REPO=' + r).replace('/opt/vp/common.sh', w + '/common.sh'))
        sh(f'rm -rf {r}/_build/tls', r); b = sh(f'bash {w}/build.sh', r)
        if b.returncode: print(S['id'], 'DOES NOT BUILD', (b.stdout + b.stderr)[-1500:]); return 1
        sh(f'bash {w}/test.sh {w}/o.json', r); o = json.load(open(w + '/o.json')); p = set(o.get('passed') or o.get('pass'))
        miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in p]
        if miss: print(S['id'], 'TESTS FAIL', miss[:5]); return 1
        o = sh(f'bash {d}/demo.sh', r)
        if o.returncode in (0, 2): print(S['id'], 'DEMO', 'PASSES' if o.returncode == 0 else 'does not compile', 'WITH THE CHANGE', o.stderr[-800:]); return 1
        print(S['id'], 'ok; original lines', orig, 'own lines', mine, '' if orig else 'NO ORIGINAL LINE CHANGED', '| demo:', (o.stdout + o.stderr).strip().split('\n')[0][:150]); return 0
    finally: shutil.rmtree(w)
for s in sys.argv[1:]: main(s)
