#!/usr/bin/env python3
"""mutate.py SEED PER_FILE OUT FILE:PROP[,PROP...] ...  Random one-token mutants of /repo's sources in a scratch copy; runs the
quick checks of the given properties on each and writes which mutants no check notices (to be reviewed by hand)."""
import random, re, subprocess, sys, os, shutil
seed, per, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rnd = random.Random(seed)
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!\-])<(?![<=])(?= ?[a-z0-9(]+[.;)+\- ])', '<='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'\+1\b', ''), (r'-1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+\+', '--'), (r'\+=', '='), (r'(?<=[=( ,])0(?=[;,) ])', '1'), (r'(?<=[=( ,])1(?=[;,) ])', '0'), (r'if \((?!!)', 'if (!('), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), ('STMT', None)]
def mutants(path):
    src = open(path).read().split('\n'); r = []; com = False
    for n, l in enumerate(src):
        c = l.strip()
        if com or c.startswith('//') or c.startswith('*') or c.startswith('#') or c.startswith('/*') or 'template' in c or 'include' in c:
            if '/*' in c and '*/' not in c: com = True
            if '*/' in c: com = False
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            if a == 'STMT':
                if re.match(r'^\s*[\w.\->\[\]*()]+(\(| ?[-+|]?= ?|\+\+|--).*;\s*$', code) and not re.match(r'^\s*(return|using|typedef|friend|const|int|char|bool|string|void|static|size_t|struct|class|unsigned|throw|T|std::\w+) ', code): r.append((n, code, ';'))
                continue
            for m in re.finditer(a, code):
                new = code[:m.start()] + b + code[m.end():]
                if a.startswith('if'):
                    d = 0
                    for i in range(m.end() - 1, len(code)):
                        if code[i] == '(': d += 1
                        if code[i] == ')':
                            d -= 1
                            if d == 0: new = code[:m.end() - 1] + '(!' + code[m.end() - 1:i + 1] + ')' + code[i + 1:]; break
                    else: continue
                r.append((n, code, new))
    return src, r
S = '/tmp/mut/tree%d' % seed; shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + S, shell=True)
todo = []
for a in sys.argv[4:]:
    f, props = a.split(':'); src, ms = mutants(S + '/' + f); rnd.shuffle(ms); todo += [(f, props.split(','), src, m) for m in ms[:per]]
rnd.shuffle(todo)
for f, props, src, (n, old, new) in todo:
    s = list(src); s[n] = new; open(S + '/' + f, 'w').write('\n'.join(s)); res = []
    for p in props:
        try: r = subprocess.run(['python3', 'run.py', p, '--tier', 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=S, SX_SCRATCH='1'), capture_output=True, text=True, timeout=800); rc, o = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired: rc, o = 9, ''
        res.append('%s=%d' % (p, rc))
        if rc: break
    tail = '' if rc != 2 else ' ' + [l for l in o.split('\n') if 'ERROR' in l or 'error' in l][:1].__str__()[:200]
    open(out, 'a').write('%s %s:%d | %s -> %s | %s%s\n' % ('MISSED' if rc == 0 else 'KILLED' if rc == 1 else 'ERROR ', f, n + 1, old.strip(), new.strip(), ' '.join(res), tail))
    open(S + '/' + f, 'w').write('\n'.join(src))
shutil.rmtree(S, ignore_errors=True)
