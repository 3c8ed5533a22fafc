#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each spec defines id, property, edits [(file, old, new)], pkg (dir of the demo test), demo (Go test source with TestDemo), needs, breaks.
Confirms in a scratch copy that the change builds, passes the tests, that the demo fails with it and passes without, then writes /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds for this scenario.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkgdir)szz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
go test %(flags)s -vet=off -overlay "$t/overlay.json" -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
# with time.SetWall(seconds) to set the wall clock
DEMO_WALL = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds for this scenario.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
f=$(go env GOROOT)/src/time/time.go
sed 's/sec, nsec, mono := runtimeNow()/&\\n\\tsec += wallJump/' "$f" > "$t/time.go"
printf '\\nvar wallJump int64\\n\\n// SetWall sets the wall clock.\\nfunc SetWall(sec int64) { wallJump = sec }\\n' >> "$t/time.go"
printf '{"Replace":{"%%s/%(pkgdir)szz_demo_test.go":"%%s/demo_test.go.txt","%%s":"%%s/time.go"}}' "$PWD" "$d" "$f" "$t" > "$t/overlay.json"
go test %(flags)s -vet=off -overlay "$t/overlay.json" -count=1 -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''
def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)
stable = None
for sp in sys.argv[1:]:
    ns = {}
    exec(open(sp).read(), ns)
    for s in ns['specs']:
        d = tempfile.mkdtemp(prefix='seed')
        try:
            w = d + '/repo'
            shutil.copytree('/repo', w, symlinks=True)
            sd = d + '/s'
            os.makedirs(sd)
            pkg = s.get('pkg', '')
            open(sd + '/demo_test.go.txt', 'w').write(s['demo'])
            open(sd + '/demo.sh', 'w').write((DEMO_WALL if s.get('wall') else DEMO) % {'pkgdir': pkg + '/' if pkg else '', 'pkg': pkg, 'flags': s.get('flags', '')})
            r = run(f'bash {sd}/demo.sh', w)
            if r.returncode != 0:
                print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:], r.stderr[-1500:]); continue
            bad = False
            for f, a, b in s['edits']:
                t = open(w + '/' + f).read()
                if t.count(a) != 1:
                    print(s['id'], 'edit does not match once', f, repr(a), t.count(a)); bad = True; break
                open(w + '/' + f, 'w').write(t.replace(a, b))
            if bad: continue
            r = run('go build ./... && go vet . && go test -count=1 ./...', w)
            if r.returncode != 0:
                print(s['id'], 'TESTS/BUILD FAIL', r.stdout[-1500:], r.stderr[-800:]); continue
            r = run(f'bash {sd}/demo.sh', w)
            if r.returncode == 0:
                print(s['id'], 'DEMO PASSES WITH THE BUG'); continue
            if 'FAIL' not in r.stdout and 'panic' not in r.stdout:
                print(s['id'], 'demo fails oddly', r.stdout[-800:], r.stderr[-800:]); continue
            diff = run('git diff', w).stdout
            out = f"{here}/seeded/{s['id']}"
            if os.path.isdir(out): shutil.rmtree(out)
            os.makedirs(out)
            open(out + '/patch.diff', 'w').write(diff)
            shutil.copy(sd + '/demo.sh', out); shutil.copy(sd + '/demo_test.go.txt', out)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            print(s['id'], 'ok')
        finally:
            shutil.rmtree(d)
