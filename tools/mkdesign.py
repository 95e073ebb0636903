"""Rewrites the generated sections of DESIGN.md (findings, seeded changes, coverage) from the files they describe."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
S['findings'] = ''.join('- %s `%s`: %s\n' % m.groups() for m in (re.match(r'fixed: property=(\S+) (\S+) (.*)', l) for l in open(root + '/known_findings.txt')) if m)
ADDED = json.load(open(root + '/tools/strengthened.json'))
out = ['| Change | Property | Breaks | Needs | Added to the checks |', '|---|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    a = ADDED.get(i)
    out.append('| %s%s | %s | %s | %s | %s |' % (i, '*' if a else '', m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), a or ''))
S['seeded'] = '\n'.join(out) + '\n'
out = ['| Property | units | executions | operations | states | exhaustive | seconds |', '|---|---|---|---|---|---|---|']
for f in sorted(glob.glob(root + '/evidence/*.json')):
    e = json.load(open(f))
    if e['tier'] != 'quick':
        continue
    c = e['coverage']
    out.append('| %s | %d | %d | %d | %d | %s | %.0f |' % (e['property'], len(c['units']), c['evaluations'], c['transitions'], c['states'], 'yes' if c['exhaustive'] else 'no', e['wall_s']))
S['coverage'] = '\n'.join(out) + '\n'
d = open(root + '/DESIGN.md').read()
for k, v in S.items():
    d = re.sub(r'(<!-- begin:%s -->\n).*?(<!-- end:%s -->)' % (k, k), lambda m: m.group(1) + v + m.group(2), d, flags=re.S)
open(root + '/DESIGN.md', 'w').write(d)
