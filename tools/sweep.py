#!/usr/bin/env python3
"""sweep.py filter FILE... > list     keeps the mutants that compile and pass the tests
   sweep.py run list result           runs the checks of each mutant until one notices

A development tool; needs /tmp/mutate (go build in tools/mutate). Works in scratch copies of /repo only.
"""
import json, os, shutil, subprocess, sys, tempfile, threading, queue
MAP = [
    ('python/', ['C33']),
    ('cmd/appdash/example_app.go', ['C38']), ('cmd/appdash/sample_data.go', ['C37', 'C35', 'C29']), ('cmd/appdash/send_cmd.go', ['C37']),
    ('cmd/appdash/', ['C35', 'C28', 'C29', 'C37']),
    ('collector.go', ['C09', 'C14', 'C12', 'C08', 'C11', 'C13', 'C10', 'C02', 'C29']),
    ('event.go', ['C16', 'C17', 'C30', 'C31']), ('reflect.go', ['C16', 'C17']),
    ('httptrace/client.go', ['C22', 'C23', 'C17', 'C30']), ('httptrace/header.go', ['C23', 'C20', 'C21', 'C22']),
    ('httptrace/server.go', ['C20', 'C21', 'C23', 'C17', 'C30']), ('id.go', ['C18', 'C19', 'C11']),
    ('multi.go', ['C25']), ('opentracing/', ['C24']), ('recorder.go', ['C15', 'C16', 'C20']), ('span.go', ['C11', 'C30', 'C18', 'C19', 'C16', 'C17', 'C15', 'C14']),
    ('sqltrace/', ['C17', 'C30', 'C16']), ('store.go', ['C01', 'C06', 'C07', 'C04', 'C05', 'C02', 'C25', 'C03', 'C29']),
    ('trace.go', ['C01', 'C30', 'C04', 'C25', 'C34', 'C26']), ('memstats.go', ['C25', 'C29']),
    ('traceapp/vis.go', ['C34', 'C31']), ('traceapp/prof.go', ['C26', 'C31']), ('traceapp/aggregate.go', ['C26', 'C31']), ('traceapp/dashboard.go', ['C26', 'C31', 'C35']),
    ('traceapp/', ['C31', 'C27', 'C34', 'C26', 'C35', 'C28', 'C29', 'C38']),
]
LOCK = threading.Lock()

def sh(cmd, cwd, **kw):
    try:
        return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, executable='/bin/bash', **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, 'timeout', '')

def apply(d, m):
    b = open('/repo/' + m['File'], 'rb').read()
    for e in sorted(m['Edits'], key=lambda e: -e['Off']):
        b = b[:e['Off']] + e['New'].encode() + b[e['Off'] + e['Len']:]
    open(d + '/' + m['File'], 'wb').write(b)

def undo(d, m):
    shutil.copyfile('/repo/' + m['File'], d + '/' + m['File'])

def workers(n, items, f):
    q = queue.Queue()
    for i in items:
        q.put(i)
    def w():
        tmp = tempfile.mkdtemp(prefix='sweep')
        d = tmp + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', d])
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            apply(d, i)
            try:
                f(d, i)
            finally:
                undo(d, i)
        shutil.rmtree(tmp)
    ts = [threading.Thread(target=w) for _ in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]

BASE = {x if isinstance(x, str) else x.get('id') for x in json.load(open('/opt/vp/BASELINE.json')).get('tests', [])} if os.path.exists('/opt/vp/BASELINE.json') else set()

def filt(d, m):
    web = m['File'].startswith(('traceapp/', 'cmd/'))
    if web:
        # compile with the stand-in for the data package
        shutil.copyfile(d + '/go.mod', d + '/../go.mod.keep')
        mod = open('/verif/go/stub/appdash.mod').read()
        mod = ''.join(l for l in mod.splitlines(True) if 'verif' not in l) + 'replace sourcegraph.com/sourcegraph/appdash-data => /verif/go/stub/appdash-data\n'
        open(d + '/../w.mod', 'w').write(mod)
        shutil.copyfile('/verif/go/go.sum', d + '/../w.sum')
        r = sh('. /opt/vp/env.sh; cd %s; go build -modfile=%s/../w.mod ./traceapp/... ./cmd/appdash' % (d, d) + ' -o /dev/null' * 0, d, timeout=120)
        if r.returncode:
            return
        if not m['File'].startswith('traceapp/tmpl/'):
            with LOCK:
                print(json.dumps(m), flush=True)
            return
    r = sh('. /opt/vp/env.sh; cd %s; go build $PKGS' % d, d, timeout=120)
    if r.returncode:
        return
    r = sh('. /opt/vp/env.sh; cd %s; go test -json -vet=off -count=1 -timeout 30s $PKGS' % d, d, timeout=120)
    n = 0
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            n += 1
    if n >= NPASS:
        with LOCK:
            print(json.dumps(m), flush=True)

FIRST = [('store.go', 'Recent|evict', 'C06'), ('store.go', 'Limit', 'C07'), ('store.go', 'Persist', 'C05'), ('store.go', 'Write|ReadFrom', 'C04'), ('store.go', 'wanted|TracesOpts|Multi', 'C25'),
         ('collector.go', 'Chunked', 'C09'), ('collector.go', 'Remote|connect', 'C12'), ('collector.go', 'Server|Local', 'C14'),
         ('id.go', 'generate|cryp', 'C19'), ('trace.go', 'Times|Find', 'C30'), ('span.go', 'New|Root', 'C19'),
         ('traceapp/app.go', 'Upload|upload|Permalink', 'C27')]
LOCKS = {'store.go': ['C03', 'C06', 'C07'], 'collector.go': ['C08', 'C13', 'C10'], 'recorder.go': ['C15'], 'id.go': ['C19'], 'traceapp/tmpl.go': ['C31']}

def order(m):
    import re
    cs = list(next(c for p, c in MAP if m['File'].startswith(p)))
    fn = ''
    for l in open('/repo/' + m['File']).read().split('\n')[:m['Line']]:
        if l.startswith('func '):
            fn = l
    for f, r, c in FIRST:
        if m['File'] == f and re.search(r, fn):
            cs = [c] + [x for x in cs if x != c]
    if 'lock' in m['What'].lower():
        l = LOCKS.get(m['File'], [])
        cs = l + [x for x in cs if x not in l]
    return cs

def run(d, m):
    cs = order(m)[:int(os.environ.get("K", "4"))]
    res = []
    for c in cs:
        r = sh('VERIF_REPO=%s nice ./check %s quick --budget 40' % (d, c), ROOT, timeout=400)
        res.append('%s:%d' % (c, r.returncode))
        if r.returncode == 1:
            break
        if r.returncode:
            m['Out'] = (r.stdout + r.stderr)[-600:]
            break
    m['Res'] = res
    with LOCK:
        OUT.write(json.dumps(m) + '\n')
        OUT.flush()

if sys.argv[1] == 'filter':
    ms = []
    for f in sys.argv[2:]:
        ms += [json.loads(l) for l in subprocess.run(['/tmp/mutate', f], cwd='/repo', capture_output=True, text=True).stdout.splitlines()]
    r = sh('. /opt/vp/env.sh; cd /repo; go test -json -vet=off -count=1 $PKGS', '/repo')
    NPASS = sum(1 for l in r.stdout.splitlines() if l.startswith('{') and json.loads(l).get('Action') == 'pass' and json.loads(l).get('Test'))
    workers(int(os.environ.get('N', '4')), ms, filt)
else:
    # a private copy of /verif so that it can be edited meanwhile
    ROOT = tempfile.mkdtemp(prefix='sweepv')
    sh('cp -a /verif/check /verif/tools /verif/go /verif/py /verif/known_findings.txt %s/; mkdir %s/evidence' % (ROOT, ROOT), '/')
    done = set()
    if os.path.exists(sys.argv[3]):
        for l in open(sys.argv[3]):
            m = json.loads(l)
            done.add((m['File'], json.dumps(m['Edits'])))
    OUT = open(sys.argv[3], 'a')
    ms = [json.loads(l) for l in open(sys.argv[2])]
    ms = [m for m in ms if (m['File'], json.dumps(m['Edits'])) not in done]
    workers(int(os.environ.get('N', '3')), ms, run)
    shutil.rmtree(ROOT)
