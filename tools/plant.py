#!/usr/bin/env python3
"""plant.py SPEC.py...: validates planted bugs in a scratch copy of /repo and writes /verif/seeded/<id>/.

A spec is a Python file that defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)...], PKG (directory of the
demonstration), DEMO (Go test source), and optionally EXTRA (further arguments of go test), SH (a whole demo.sh), FILES.
"""
import json, os, shutil, subprocess, sys, tempfile

SH = '''#!/bin/bash
# Exit 0 on the unchanged tree, 1 with the planted change. Runs in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
. /opt/vp/env.sh
cd "$root" || exit 3
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$root" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' %(extra)s ./%(pkg)s
'''

# For the packages that need sourcegraph.com/sourcegraph/appdash-data, of which a stand-in lies beside demo.sh.
SHWEB = '''#!/bin/bash
# Exit 0 on the unchanged tree, 1 with the planted change. Runs in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
. /opt/vp/env.sh
cd "$root" || exit 3
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && tar -c --exclude=./.git . | tar -x -C "$tmp/src" || exit 3
cp "$here/go.mod.txt" "$tmp/src/go.mod" && cp "$here/go.sum.txt" "$tmp/src/go.sum" || exit 3
mkdir "$tmp/data" && cp "$here/data.go.txt" "$tmp/data/data.go" && printf 'module sourcegraph.com/sourcegraph/appdash-data\\n\\ngo 1.21\\n' > "$tmp/data/go.mod" || exit 3
rm -f "$tmp/src/%(pkg)s/"*_test.go
cp "$here/demo_test.go" "$tmp/src/%(pkg)s/zz_demo_test.go" || exit 3
cd "$tmp/src" || exit 3
go test -vet=off -count=1 -timeout 120s -run '^TestDemo' %(extra)s ./%(pkg)s
'''

# For the Python client; demo.py is in TEXT.
SHPY = '''#!/bin/bash
# Exit 0 on the unchanged tree, 1 with the planted change. Runs in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$here python3 "$here/demo.py" "$PWD/python"
'''
# The beginning of demo.py: the modules of the client, on stand-ins.
PYHEAD = '''import sys
import py2, stubs
clock = stubs.Clock()
net = stubs.Net(lambda n, l: 0, 0, 0)
reactor = stubs.Reactor(clock)
drawn = [0]
def bits(n):
    drawn[0] += 1
    return 0x1000 + drawn[0]
fakes = dict(stubs.protobuf())
fakes.update(stubs.twisted(reactor))
fakes.update(time=stubs.time_module(clock), random=stubs.random_module(bits), strict_rfc3339=stubs.rfc3339(), socket=stubs.socket_module(net),
             basictracer=stubs.basictracer(clock, bits))
w = py2.World(sys.argv[1], fakes, {'itertools', 'sys'})
app = w.imp('appdash')
def fail(*a):
    print('FAIL', *a)
    sys.exit(1)
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, executable='/bin/bash', **kw)

def tests(d):
    r = sh('. /opt/vp/env.sh; cd %s; go test -json -vet=off -count=1 -timeout 5m $PKGS' % d, d)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            ok.add(e['Package'] + '::' + e['Test'])
    return ok

def main():
    for spec in sys.argv[1:]:
        g = {}
        exec(open(spec).read(), g)
        tmp = tempfile.mkdtemp(prefix='plant')
        d = tmp + '/repo'
        try:
            subprocess.check_call(['cp', '-a', os.environ.get('VERIF_REPO', '/repo'), d])
            sh('git checkout -q -- . ', d)
            demo = tmp + '/demo'
            os.mkdir(demo)
            pkg = g.get('PKG', '.')
            open(demo + '/demo.sh', 'w').write(g.get('SH') or (SHPY if g.get('PY') else SHWEB if g.get('WEB') else SH) % {'pkg': pkg, 'extra': g.get('EXTRA', '')})
            os.chmod(demo + '/demo.sh', 0o755)
            if 'DEMO' in g:
                open(demo + '/demo_test.go', 'w').write(g['DEMO'])
            if g.get('PY'):
                open(demo + '/demo.py', 'w').write(PYHEAD + g['PY'])
                shutil.copy('/verif/py/py2.py', demo)
                shutil.copy('/verif/py/stubs.py', demo)
            for name, text in g.get('TEXT', {}).items():
                open(demo + '/' + name, 'w').write(text)
            for src, dst in g.get('FILES', {}).items():
                (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, demo + '/' + dst)
            if g.get('WEB'):
                mod = open('/verif/go/stub/appdash.mod').read()
                mod = ''.join(l for l in mod.splitlines(True) if 'verif' not in l) + 'replace sourcegraph.com/sourcegraph/appdash-data => ../data\n'
                open(demo + '/go.mod.txt', 'w').write(mod)
                shutil.copy('/verif/go/go.sum', demo + '/go.sum.txt')
                shutil.copy('/verif/go/stub/appdash-data/data.go', demo + '/data.go.txt')
            base = tests(d)
            r = sh(demo + '/demo.sh', d)
            if r.returncode != 0:
                print(g['ID'], 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-1500:], r.stderr[-1500:]); continue
            bad = False
            for f, old, new in g['EDITS']:
                s = open(d + '/' + f).read()
                if s.count(old) != 1:
                    print(g['ID'], 'edit matches', s.count(old), 'times:', old); bad = True; break
                open(d + '/' + f, 'w').write(s.replace(old, new))
            if bad:
                continue
            diff = sh('git diff', d).stdout
            r = sh('. /opt/vp/env.sh; cd %s; go build $PKGS && gofmt -e traceapp/*.go cmd/appdash/*.go >/dev/null' % d, d)
            if r.returncode != 0:
                print(g['ID'], 'DOES NOT BUILD', r.stderr[-1500:]); continue
            lost = base - tests(d)
            if lost:
                print(g['ID'], 'TESTS FAIL', sorted(lost)); continue
            r = sh(demo + '/demo.sh', d)
            if r.returncode == 0:
                print(g['ID'], 'DEMO PASSES WITH THE CHANGE'); continue
            if 'build failed' in r.stdout + r.stderr:
                print(g['ID'], 'DEMO DOES NOT COMPILE', r.stdout[-800:]); continue
            out = '/verif/seeded/' + g['ID']
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(demo, out)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
            print(g['ID'], 'planted;', len(base), 'tests pass; demo:', ' | '.join((r.stdout + r.stderr).strip().splitlines()[:3])[:300])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

main()
