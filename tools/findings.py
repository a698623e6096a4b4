#!/usr/bin/env python3
"""findings.py PROP [N]: add the last N (default 1) fix commits of /repo to known_findings.json as fixed entries of PROP"""
import subprocess, sys, json
pr = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 1
p = '/verif/known_findings.json'; s = open(p).read().rstrip(); assert s.endswith(']}'); s = s[:-2].rstrip()
for l in reversed(subprocess.run(['git', '-C', '/repo', 'log', '--oneline', '-%d' % n], capture_output=True, text=True).stdout.splitlines()):
    h, t = l.split(' ', 1); assert t.startswith('fix: '); t = t[5:]
    assert h not in s; s += ',\n ' + json.dumps(dict(property=pr, id=pr + '-' + h, status='fixed', commit=h, what='fixed: property=%s %s %s' % (pr, h, t)))
open(p, 'w').write(s + '\n]}\n'); json.load(open(p))
