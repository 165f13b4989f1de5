"""Rewrites the generated part of DESIGN.md: what each check encodes, from checks/ and props.py, and which check catches which seeded change."""
import glob
import importlib.util
import inspect
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools'), os.path.join(HERE, 'checks')]
from props import P
from symex import harness

out = []
for p in sorted(P, key=lambda p: p['id']):
    f = os.path.join(HERE, 'checks', p['id'] + '.py')
    del harness.CASES[:]
    spec = importlib.util.spec_from_file_location('chk' + p['id'], f)
    m = importlib.util.module_from_spec(spec)
    sys.modules['chk' + p['id']] = m
    spec.loader.exec_module(m)
    out.append('### %s %s' % (p['id'], p['title']))
    out.append('')
    out.append('Code: %s. Why not tests: %s' % ('; '.join(w['where'] for w in p['anchors']['mechanism']), p['why_tests_cant']))
    out.append('')
    for c in harness.CASES:
        d = ' '.join((inspect.getdoc(c.fn) or '').split())
        def show(ps):
            return '; '.join('(' + ', '.join('%s=%s' % (k, v) for k, v in q.items()) + ')' if q else '(fixed sizes)' for q in ps)
        q, t = show(c.quick), show(c.thorough)
        if len(q) > 300:
            q = q[:300].rsplit(';', 1)[0] + '; ... %d instances' % len(c.quick)
        if len(t) > 200:
            t = t[:200].rsplit(';', 1)[0] + '; ... %d instances' % len(c.thorough)
        out.append('* `%s` %s Bounds: %s%s' % (c.fn.__name__, d, q, '; thorough adds ' + t if t else ''))
    st = getattr(m, 'STUBS', [])
    if st:
        out.append('* Models and stand-ins: ' + '; '.join(st) + '.')
    if getattr(m, 'OUTSIDE', ''):
        out.append('* Outside: ' + m.OUTSIDE + '.')
    out.append('')
tab = ['| change | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    j = json.load(open(d + '/meta.json'))
    tab.append('| %s | %s | %s | %s |' % (os.path.basename(d), j['property'], j['needs'], j['what_it_breaks']))
fx = []
for f in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']:
    fx.append('* %s' % (f.get('line') or json.dumps(f)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
for name, lines in (('CHECKS', out), ('SEEDED', tab), ('FIXES', fx)):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n' + '\n'.join(lines) + '\n' + s[j:]
open(p, 'w').write(s)
