#!/usr/bin/env python3
"""seed.py ID... : build seeded/<id> from defs/<id>.py, validate in a scratch copy, run the check"""
import sys, os, subprocess, json, shutil, re
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base
    for k in ('stable','tests','passed','passing'):
        if k in b: return set(b[k])
    raise SystemExit(b.keys())
def one(i, docheck=True):
    ns = {}
    exec(open('/tmp/seed/defs/%s.py' % i).read(), ns)
    d = '/verif/seeded/%s' % i
    cp = '/tmp/seed/cp_%s' % i
    shutil.rmtree(cp, ignore_errors=True)
    sh('git -C /repo worktree prune; git clone -q /repo %s' % cp)
    for f, old, new, *n in ns['EDITS']:
        p = cp + '/' + f; s = open(p).read()
        n = n[0] if n else 1
        assert s.count(old) == n, (i, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C %s diff' % cp).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(ns['DEMO'])
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: behaves as promised, nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -g %s -I include -I "$d" "$d/demo.cpp" -o "$t/demo" -pthread %s|| exit 99
timeout %d "$t/demo"
''' % (ns.get('FLAGS', '-O1'), ns.get('LIBS',''), ns.get('TIMEOUT', 120)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({"property": ns['PROP'], "needs": ns['NEEDS'], "what_it_breaks": ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    # original lines?
    root = '62570521e76e92b65d1dcc5f25596bf0a63bcbef'
    removed = 0; orig = 0
    for f in {e[0] for e in ns['EDITS']}:
        bl = sh('git -C /repo blame -s %s' % f).stdout.splitlines()
        dd = sh('git -C %s diff -U0 %s' % (cp, f)).stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', dd, re.M):
            a = int(m[1]); c = int(m[2]) if m[2] is not None else 1
            for l in range(a, a + c):
                removed += 1; orig += bl[l-1].startswith('^')
    r = {'id': i, 'prop': ns['PROP'], 'removed': removed, 'orig': orig}
    # demos
    x = sh('bash %s/demo.sh' % d, cwd='/repo'); r['clean'] = x.returncode
    x = [sh('bash %s/demo.sh' % d, cwd=cp) for _ in range(ns.get('REPEAT', 2))]; r['patched'] = [y.returncode for y in x]
    r['out'] = x[-1].stdout[-300:]
    if docheck:
        x = sh('VERIF_REPO=%s python3 /verif/check.py %s --tier quick' % (cp, ns['PROP'])); r['check'] = x.returncode
        m = re.findall(r'^scenario (.*)$', x.stdout, re.M); r['by'] = m[:2]
        if x.returncode not in (0, 1): r['checkout'] = x.stdout[-500:]
    # tests: an own build of the copy
    x = sh('sed -e "s#/repo#%s#g" /opt/vp/build.sh > %s/../b_%s.sh; bash /tmp/seed/b_%s.sh && ctest --test-dir %s/_build/test -j8 --timeout 30 --output-junit %s/_build/r.xml' % (cp, cp, i, i, cp, cp))
    m = re.search(r'(\d+)% tests passed, (\d+) tests failed out of (\d+)', x.stdout)
    r['tests'] = m[0] if m else 'BUILD FAILED ' + x.stdout[-600:]
    if m and m[2] != '0': r['failing'] = re.findall(r'^\s*\d+ - (\S+)', x.stdout, re.M)
    shutil.rmtree(cp, ignore_errors=True)
    os.unlink('/tmp/seed/b_%s.sh' % i)
    ok = r['clean'] == 0 and all(r['patched']) and 99 not in r['patched'] and m and m[2] == '0' and orig > 0
    r['COUNTS'] = bool(ok)
    r['CAUGHT'] = r.get('check') == 1
    return r
log = open('/tmp/seed/log.txt', 'a')
for i in sys.argv[1:]:
    r = one(i)
    print(json.dumps(r, indent=1)); print(json.dumps(r), file=log, flush=True)
