"""Lists every "fix:" commit of /repo in known_findings.json as fixed (the
property each one belongs to is given in FIXED below); findings that are
recorded and not repaired are kept in KNOWN."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
FIXED = {}
for line in open(os.path.join(HERE, 'tools', 'fixed.txt')):
    line = line.rstrip('\n')
    if line:
        pid, msg = line.split('\t')
        FIXED[msg] = pid
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h\t%s', '--reverse'], text=True).splitlines()
undone = {l.split('\t', 1)[1][8:-1] for l in log if l.split('\t', 1)[1].startswith('Revert "')}
out = list(json.load(open(os.path.join(HERE, 'tools', 'known.json'))))
miss = []
for l in log:
    h, s = l.split('\t', 1)
    if not s.startswith('fix: ') or s in undone:
        continue
    m = s[5:]
    if m not in FIXED:
        miss.append(m)
        continue
    out.append({'property': FIXED[m], 'status': 'fixed', 'commit': h, 'what': m, 'line': 'fixed: property=%s %s %s' % (FIXED[m], h, m)})
json.dump({'findings': out}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
for m in miss:
    print('UNASSIGNED\t' + m)
print(len(out), 'findings')
