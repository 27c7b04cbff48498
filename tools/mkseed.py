#!/usr/bin/env python3
"""Authoring helper: plants one bug. A spec is a python file with ID, PROP, NEEDS,
BREAKS, EDITS [(file, old, new)], DIR (package of the demonstration), DEMO (Go test
source) and optionally ARGS (extra go test arguments), SH (shell demo instead), FILES.
It is confirmed in a scratch copy: builds, stable tests pass, demo 0 before and
nonzero after; then seeded/<ID>/ is written and the property's check is run on it."""
import json, os, shutil, subprocess, sys, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
checks = sys.argv[2:] or [spec['PROP']]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = tempfile.mkdtemp(prefix='wt.', dir='/tmp')
def sh(c, cwd=None, **k):
    return subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, **k)
def die(m):
    shutil.rmtree(W); print('FAIL', spec['ID'], m); sys.exit(1)
R = W + '/repo'
sh(f'git -C /repo worktree prune; git clone -q /repo {R}')
out = f"{W}/seed"; os.makedirs(out)
for f, c in spec.get('FILES', {}).items():
    open(f'{out}/{f}', 'w').write(c)
if 'DEMO' in spec:
    open(out + '/demo_test.go', 'w').write(spec['DEMO'])
    d = spec.get('DIR', '.')
    demo = f'''#!/bin/bash
# exit 0: the property holds on the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{{"Replace": {{"%s/{d}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$PWD" "$D" > "$T/overlay.json"
{spec.get('ENV','')}go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" {spec.get('ARGS','')} -run '^TestZZ' ./{d}
'''
else:
    demo = spec['SH']
open(out + '/demo.sh', 'w').write(demo)
r = sh(f'bash {out}/demo.sh', cwd=R)
if r.returncode != 0: die('demo fails on the unchanged tree\n' + r.stdout[-2500:] + r.stderr[-2500:])
for f, a, b in spec['EDITS']:
    s = open(f'{R}/{f}').read()
    if s.count(a) != 1: die(f'{f}: {s.count(a)} occurrences of {a!r}')
    open(f'{R}/{f}', 'w').write(s.replace(a, b))
patch = sh('git diff', cwd=R).stdout
open(out + '/patch.diff', 'w').write(patch)
r = sh('. /opt/vp/env.sh; go build ./... && gofmt -l $(git diff --name-only)', cwd=R)
if r.returncode: die('build ' + r.stderr[-2000:])
t = open('/opt/vp/test.sh').read().replace('/repo', R)
open(W + '/test.sh', 'w').write(t)
r = sh(f'bash {W}/test.sh {W}/o.json', cwd=R)
def passed(p):
    x = json.load(open(p))
    for k in ('passed', 'pass', 'stable'):
        if k in x: return set(y.replace(R, '/repo') for y in x[k])
miss = passed('/opt/vp/BASELINE.json') - passed(W + '/o.json')
if miss: die(f'tests fail: {sorted(miss)[:5]}')
sh('git checkout -q -- . ; git clean -fdq', cwd=R); sh(f'git apply {out}/patch.diff', cwd=R)
fails = 0
N = 3
for i in range(N):
    r = sh(f'bash {out}/demo.sh', cwd=R)
    fails += r.returncode != 0
if fails < N: die(f'demo fails only {fails}/{N} with the change')
print('demo:', (r.stdout + r.stderr)[-400:].strip().replace('\n', ' | '))
json.dump({"property": spec['PROP'], "needs": spec['NEEDS'], "what_it_breaks": spec['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
dst = f"{V}/seeded/{spec['ID']}"
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(out, dst)
shutil.rmtree(W)
if os.environ.get('NOCHECK'): sys.exit(0)
assert sh('git -C /repo status --short').stdout == ''
r = sh(f'git -C /repo apply {dst}/patch.diff')
assert r.returncode == 0, r.stderr
try:
    for c in checks:
        r = sh(f'bash {V}/run.sh {c} quick')
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
        print(spec['ID'], c, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode} ' + r.stdout[-500:] + r.stderr[-300:], v[:1], [l for l in r.stdout.split('\n') if 'wall=' in l])
        lines = r.stdout.split('\n')
        for i, l in enumerate(lines):
            if 'VIOLATION' in l: print('   ', '\n    '.join(x[:300] for x in lines[max(0,i-3):i+4])); break
finally:
    sh('git -C /repo checkout -- . && git -C /repo clean -fdq')
