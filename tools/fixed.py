#!/usr/bin/env python3
# records fix commits: fixed.py ID 'words of the subject' 'what failed' ...
import json, subprocess, sys
p = '/verif/known_findings.json'
a = sys.argv[1:]
d = json.load(open(p))
key = [k for k in d if isinstance(d[k], list) and any(isinstance(x, str) and x.startswith('fixed:') for x in d[k])][0]
for i in range(0, len(a), 3):
    h = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '-F', '--grep', a[i + 1]], capture_output=True, text=True).stdout.split()
    assert len(h) == 1, (a[i + 1], h)
    line = 'fixed: property=%s %s %s' % (a[i], h[0], a[i + 2])
    if line not in d[key]:
        d[key].append(line)
d[key].sort()
rest = {k: v for k, v in d.items() if k != key}
open(p, 'w').write(json.dumps(rest)[:-1] + (', ' if rest else '') + json.dumps(key) + ': [\n ' + ',\n '.join(json.dumps(x) for x in d[key]) + ']}\n')
