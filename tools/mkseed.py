#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ source of main).
Builds a scratch copy of /repo with the edit, checks that the build, the stable tests and the demo behave as a planted bug
must, then writes seeded/<id>/."""
import sys, os, subprocess, shutil, json, runpy
S = runpy.run_path(sys.argv[1]); ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
dst = os.path.join(W, 'd'); os.makedirs(dst)
open(dst + '/demo.cc', 'w').write(S['demo'])
open(dst + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds on the demonstrated input; nonzero: it is broken (run with cwd = the repository, after the build)
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
clang++-17 -std=c++20 -stdlib=libc++ -w %s -I . "$D/demo.cc" %s -o "$T/demo" || exit 3
timeout 60 "$T/demo"
''' % (S.get('flags', '-O0'), ' '.join(S.get('link', ['best/log/internal/crash.cc']))))
os.chmod(dst + '/demo.sh', 0o755)
json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['breaks']}, open(dst + '/meta.json', 'w'), indent=1)
def demo(cwd): return subprocess.run(['bash', dst + '/demo.sh'], cwd=cwd, capture_output=True, text=True)
r = demo('/repo')
if r.returncode: print('demo fails on clean tree', r.returncode, r.stdout[-500:], r.stderr[-2000:]); sys.exit(1)
try:
    for f, a, b in S['edits']:
        p = '/repo/' + f; t = open(p).read()
        assert t.count(a) == 1, (f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    open(dst + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    if b.returncode: print('BUILD FAILS', (b.stdout + b.stderr)[-1500:]); sys.exit(1)
    subprocess.run(['bash', '/opt/vp/test.sh', W + '/o.json'], capture_output=True, text=True, cwd='/repo')
    B = json.load(open('/opt/vp/BASELINE.json')); ids = B.get('passing') or B.get('passed') or B.get('stable') or B
    miss = set(ids) - set(json.load(open(W + '/o.json'))['passed'])
    if miss: print('TESTS FAIL', sorted(miss)[:5]); sys.exit(1)
    r = demo('/repo')
    print('demo with patch:', r.returncode, (r.stdout + r.stderr)[-300:])
    if r.returncode in (0, 3): print('DEMO DOES NOT FAIL'); sys.exit(1)
    if '-c' in sys.argv:
        c = subprocess.run(['python3-vt', ROOT + '/vp/check.py', S['prop']], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        print('CHECK', c.returncode, '\n'.join(l[:200] for l in c.stdout.splitlines() if 'VIOLATION' in l or 'failed' in l)[:700], c.stdout.splitlines()[-1:] )
finally:
    subprocess.call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True)
out = os.path.join(ROOT, 'seeded', S['id']); shutil.rmtree(out, ignore_errors=True); shutil.copytree(dst, out)
print('planted', out)
