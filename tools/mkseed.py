#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a specification.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new), ...] and
DEMO (the Go main program). The patch is made in a scratch copy and kept only
if it builds, passes the stable tests, and the demonstration tells it apart.
"""
import json, os, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])
wt = '/tmp/seedwt'
out = '/verif/seeded/' + spec['ID']
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
if not os.path.isdir(wt): sh('git clone -q /repo ' + wt)
sh('git fetch -q && git reset -q --hard origin/HEAD && git clean -fdq', cwd=wt)
head = sh('git -C /repo rev-parse HEAD').stdout.strip()
sh('git reset -q --hard ' + head, cwd=wt)
for f, old, new in spec['EDITS']:
    p = os.path.join(wt, f); s = open(p).read()
    if s.count(old) != 1: sys.exit(f'{f}: {s.count(old)} occurrences of {old!r}')
    open(p, 'w').write(s.replace(old, new))
os.makedirs(out, exist_ok=True)
diff = sh('git diff', cwd=wt).stdout
open(out + '/patch.diff', 'w').write(diff)
open(out + '/main.go', 'w').write(spec['DEMO'].lstrip())
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# Exits 0 when the behaviour is as it should be, nonzero otherwise.
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
here=$(cd "$(dirname "$0")" && pwd)
echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$here/main.go\\"}}" | timeout 250 go run -overlay /dev/stdin ./zzdemo
''')
os.chmod(out + '/demo.sh', 0o755)
json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
r = sh(f'bash -c ". /opt/vp/env.sh; export GOFLAGS=-mod=readonly; go build ./... "', cwd=wt)
if r.returncode: sys.exit('does not build\n' + r.stderr)
r = sh(f'bash -c ". /opt/vp/env.sh; export GOFLAGS=-mod=readonly; go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seedwt.log"', cwd=wt)
failed = []
base = json.load(open('/opt/vp/BASELINE.json'))
for l in open('/tmp/seedwt.log'):
    try: e = json.loads(l)
    except ValueError: continue
    if e.get('Action') == 'fail': failed.append(e.get('Package', '') + ' ' + e.get('Test', ''))
if failed: sys.exit('tests fail: ' + '; '.join(failed[:5]))
d1 = sh('bash ' + out + '/demo.sh', cwd=wt)
d0 = sh('bash ' + out + '/demo.sh', cwd='/repo')
print(spec['ID'], 'demo clean', d0.returncode, 'with the bug', d1.returncode, (d1.stdout + d1.stderr).strip()[:200].replace('\n', ' | '))
if d0.returncode != 0 or d1.returncode == 0: print(d0.stdout + d0.stderr); sys.exit('demo does not tell them apart')
