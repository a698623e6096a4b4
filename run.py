#!/usr/bin/env python3
"""Check driver: run.py PROPERTY [--tier quick|thorough] [--entry NAME] [--keep]

For one property: regenerates the encoding (LLVM IR) of harness + /repo sources, runs the symbolic
executor on every entry, replays each counterexample against a native build, validates sampled paths
against the native build, writes evidence/<id>.json.  Exit 0 held, 1 VIOLATION, 2 error of the check."""
import sys, os, re, json, subprocess, time, shutil, glob, tempfile, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SX = os.path.join(BUILD, 'sx')
LIM = 'ulimit -v 12000000; '

def sh(cmd, timeout=600, cwd=None, env=None):
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True, executable='/bin/bash' if isinstance(cmd, str) else None)
    try:
        o, e = p.communicate(timeout=timeout); return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate(); return -999, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

class Err(Exception): pass
_lock = threading.Lock()

IRFLAGS = '-O1 -fno-vectorize -fno-slp-vectorize -fno-strict-aliasing -gline-tables-only -w -emit-llvm'
def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    rc, o, e = sh('exec 9>%s/lock; flock 9; make -s -j4 -C %s/engine' % (BUILD, V), 1200)
    if rc: raise Err('engine build failed: ' + e[-2000:])
def build_rt():
    src = [os.path.join(V, 'rt', f) for f in ('rt.cc', 'sym.h', 'prefix.h')]
    h = hashlib.sha1(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:12]
    bc = os.path.join(BUILD, 'rt-%s.bc' % h)
    if not os.path.exists(bc):
        t = bc + '.%d' % os.getpid()
        rc, o, e = sh('clang++ -std=c++17 -include %s/rt/prefix.h -I%s/rt -O1 -U__OPTIMIZE__ -D__NO_INLINE__ -g1 -fno-vectorize -fno-slp-vectorize -fno-builtin -w -emit-llvm -c %s/rt/rt.cc -o %s' % (V, V, V, t))
        if rc: raise Err('rt build failed: ' + e[-2000:])
        os.rename(t, bc)
    return bc

CDGEN = {'dump': '-nodef -onbase -i {} dump', 'pack': '-nodef -onbase -i {} pack unpack', 'json_pack': '-nodef -onbase -respect_private -i {} json_pack json_unpack',
  'xml_pack': '-nodef -onbase -respect_private -i {} xml_pack xml_unpack', 'xsd_generate': '-nodef -onbase -respect_private -i {} xsd_generate',
  'random_init': '-nodef -onbase -i {} random_init', 'RESTProcess': '-nodef -onbase -respect_private -i {} RESTProcess', 'typeName': '-nodef -typeName -i {}'}
CDHEADERS = 'multiArray object poly polyBase polyRESTProcess polyRESTProcessBase polyXMLBase RESTProcess_base signature stringKeyMap xml_pack_base xml_unpack_base xml_common'.split()

class Tree:
    """scratch copy of the library's current sources, with the tools and descriptors regenerated from them"""
    def __init__(self, d, need):
        self.d = d; inc = self.inc = os.path.join(d, 'inc'); os.makedirs(inc)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if f.endswith(('.h', '.cc', '.sh')) or f in ('fix-privates', 'Makefile'):
                if os.path.islink(p) or not os.path.isfile(p): continue
                shutil.copy(p, os.path.join(inc, f))
        for a, b in (('unpack_base.h', 'pack_base.h'), ('json_unpack_base.h', 'json_pack_base.h')):
            if not os.path.exists(os.path.join(inc, a)): os.symlink(b, os.path.join(inc, a))
        self.tools = False; self.cdfail = []
        if 'functiondb' in need:
            f = os.path.join(d, 'fdb'); os.makedirs(f)
            for h in os.listdir(inc):
                if h.endswith('.h') and not h.startswith('functiondb'): shutil.copy(os.path.join(inc, h), os.path.join(f, h))
            shutil.copy(os.path.join(inc, 'functiondb.sh'), f)
            rc, o, e = sh('bash functiondb.sh > functiondb.h', 120, cwd=f)
            if rc: raise Err('functiondb.sh failed')
            self.fdb = f; rd = lambda p: open(p, 'rb').read() if os.path.exists(p) else None
            self.fdbsame = all(rd(os.path.join(f, h)) == rd(os.path.join(inc, h)) for h in os.listdir(f) if h.startswith('functiondb'))
    def build_tools(self):
        if self.tools: return
        self.tools = True
        rc, o, e = sh('g++ -std=c++98 -w -O1 classdesc.cc -o classdesc', 200, cwd=self.inc)
        if rc: raise Err('classdesc does not compile: ' + e[-1500:])
    def insert_friend(self):
        rc, o, e = sh('g++ -std=c++98 -w -O1 insert-friend.cc -o insert-friend', 200, cwd=self.inc)
        if rc: raise Err('insert-friend does not compile: ' + e[-1500:])
    def cds(self, kinds):
        self.build_tools()
        for k in kinds:
            for h in CDHEADERS:
                out = os.path.join(self.inc, '%s-%s.cd' % (h, k))
                if os.path.exists(out) or not os.path.exists(os.path.join(self.inc, h + '.h')): continue
                rc, o, e = sh('./classdesc %s > %s' % (CDGEN[k].format(h + '.h'), out), 60, cwd=self.inc)
                if rc: self.cdfail.append(os.path.basename(out))
    def gen(self, src, out, args):
        self.build_tools()
        rc, o, e = sh('./classdesc %s -i %s > %s' % (args[0], src, out) if False else './classdesc %s' % args.replace('$SRC', src) + ' > ' + out, 60, cwd=self.inc)
        if rc: raise Err('classdesc failed on %s: %s' % (src, e[-500:]))

class Unit:
    """one harness translation unit; directives are comment lines starting with //@ """
    def __init__(self, path, tier):
        self.path = path; self.name = os.path.basename(path)[:-3]; self.std = 'c++98'; self.cd = ['pack']; self.gen = []; self.need = set(); self.defs = []; self.nat = []; self.entries = []; self.bounds = []; self.assume = []; self.src = open(path).read(); self.src += ''.join('\n' + open(os.path.join(V, 'harness', f)).read() for f in re.findall(r'^//@ entries: (\S+)', self.src, re.M))
        self.irflags = ''; self.natflags = '-O1'
        for l in self.src.split('\n'):
            m = re.match(r'//@\s*(\w+)\s*:\s*(.*)', l)
            if m:
                k, v = m.groups(); v = v.strip()
                if k == 'std': self.std = v
                elif k == 'cd': self.cd = v.split()
                elif k == 'gen': self.gen.append(v)            # file.h -> out.cd : args
                elif k == 'need': self.need |= set(v.split())
                elif k == 'defs': self.defs += v.split()
                elif k == 'native': self.nat += v.split()
                elif k == 'ir': self.irflags += ' ' + v
                elif k == 'bounds': self.bounds.append(v)
                elif k == 'entries': pass                      # entries of an included file
                elif k == 'assume': self.assume.append(v)
                else: raise Err('directive ' + k)
            m = re.match(r'\s*ENTRY\((\w+)\)', l)
            if m: self.entries.append((m.group(1), {}))
            d = re.search(r'//@@\s*(.*)$', l)              # options: on the entry's line or a later one, for the entry begun last
            for t in (d.group(1).split() if d else []):
                a, _, b = t.partition('='); self.entries[-1][1][a] = b
        self.tier = tier
        self.entries = [e for e in self.entries if e[1].get('tier', tier) == tier or (e[1].get('tier') == 'quick' )]
    def flags(self, tree, w):
        return ('-DTR1 -DHAVE_LONGLONG ' if self.std == 'c++98' else '') + '-std=%s %s-I%s -I%s -I%s -I%s/rt -I%s/harness -I%s/harness/json5 -DTIER=%d %s' % (self.std, '-I%s ' % tree.fdb if 'functiondb' in self.need else '', w, tree.inc, tree.inc, V, V, V, 1 if self.tier == 'thorough' else 0, ' '.join('-D' + d for d in self.defs))

def expand(opts, tier):
    """entry options -> list of sx argument lists (partitions via fix:NAME=lo..hi)"""
    runs = [[]]
    for k, v in opts.items():
        if k.startswith('fix:'):
            lo, hi = (v.split('/')[1 if tier == 'thorough' and '/' in v else 0]).split('..')
            runs = [r + ['--fix', '%s=%d' % (k[4:], x)] for r in runs for x in range(int(lo), int(hi) + 1)]
    common = []
    for k, f in (('time', '--time'), ('steps', '--max-steps'), ('paths', '--max-paths'), ('solver', '--solver-timeout'), ('mem', '--mem')):
        if k in opts: vs = opts[k].split('/'); common += [f, vs[1 if tier == 'thorough' and len(vs) > 1 else 0]]
    if 'time' not in opts: common += ['--time', '1500' if tier == 'thorough' else '300']
    return [r + common for r in runs]

KINDS = {'assert': 'assertion', }
def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop', nargs='?'); ap.add_argument('--warm', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--entry'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args(); t0 = time.time(); tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.warm: build_engine(); build_rt(); sys.exit(0)
    work = tempfile.mkdtemp(prefix='sx-%s-' % a.prop, dir='/tmp')
    try: rc = check(a, tier, work, t0)
    except Err as e: print('ERROR property=%s %s' % (a.prop, e)); rc = 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print('work dir', work)
    sys.exit(rc)

def check(a, tier, work, t0):
    P = a.prop
    units = [Unit(f, tier) for f in sorted(glob.glob('%s/harness/%s*.cc' % (V, P))) if re.match(r'^%s(_\w+)?\.cc$' % P, os.path.basename(f))]
    if a.entry:
        for u in units: u.entries = [e for e in u.entries if re.fullmatch(a.entry, e[0])]
        units = [u for u in units if u.entries]
    if not units: raise Err('no harness')
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == P] if os.path.exists(os.path.join(V, 'known_findings.json')) else []
    pool = ThreadPoolExecutor(JOBS)
    feng = pool.submit(build_engine); frt = pool.submit(build_rt)
    need = set().union(*[u.need for u in units])
    tree = Tree(work, need)
    if 'functiondb' in need and tree.fdbsame: units = [u for u in units if 'functiondb' not in u.need]   # the same text as the unit without it
    if 'insert-friend' in need: tree.insert_friend()
    tree.cds(sorted(set(k for u in units for k in u.cd)))
    def prep(u):
        w = os.path.join(work, u.name); os.makedirs(w); u.w = w
        for g in u.gen:
            src, out, args = [x.strip() for x in re.split(r'->|:', g, maxsplit=2)]
            if not os.path.exists(os.path.join(w, out)): tree.gen(os.path.join(V, 'harness', src), os.path.join(w, out), args)
        frt.result()
        u.dropped = {}
        for attempt in range(12):
            rc, o, e = sh('clang++ %s -ftemplate-backtrace-limit=0 -ferror-limit=0 -fno-caret-diagnostics -include %s/rt/prefix.h %s %s -c %s -o %s/u.bc && llvm-link-18 %s/u.bc %s -o %s/all.bc' % (u.flags(tree, w), V, IRFLAGS, u.irflags, u.path, w, w, build_rt(), w), 400)
            if rc == 0: break
            if not drop(u, e): raise Err('harness %s does not compile against the current sources: %s' % (u.name, (e if a.v else '\n'.join(x for x in e.split('\n') if 'error' in x))[:3000]))
        else: raise Err('harness %s does not compile against the current sources' % u.name)
    def drop(u, diag):
        """the library no longer compiles for what some entries do: leave these out, so that the others can be decided.  False if no entry is to blame"""
        files = {u.path: open(u.path).read()}
        for f in re.findall(r'^//@ entries: (\S+)', files[u.path], re.M):
            q = os.path.join(u.w, f)
            if not os.path.exists(q): shutil.copy(os.path.join(V, 'harness', f), q)
            files[q] = open(q).read()
        alias = {os.path.join(V, 'harness', os.path.basename(q)): q for q in files}; alias.update({q: q for q in files})
        blocks = []
        for l in diag.split('\n'):
            if re.search(r': (fatal )?error: ', l): blocks.append([l])
            elif blocks: blocks[-1].append(l)
        out = {}
        for b in blocks:
            hit = None
            for l in b:
                m = re.match(r'(/\S+?):(\d+):\d+: ', l); q = alias.get(os.path.normpath(m.group(1))) if m else None
                if q:
                    starts = [(n, re.match(r'\s*ENTRY\((\w+)\)', x).group(1)) for n, x in enumerate(files[q].split('\n'), 1) if re.match(r'\s*ENTRY\((\w+)\)', x)]
                    before = [x for x in starts if x[0] <= int(m.group(2))]
                    if before: hit = (q, before[-1][1])
            if hit: out.setdefault(hit, b[0])
        out = {k: v for k, v in out.items() if k[1] not in u.dropped}
        if not out: return False
        inlib = lambda l: (lambda f: f.startswith(tree.d + '/') and f not in files)(os.path.normpath(l.split(':')[0]))
        if any(inlib(v) for v in out.values()) and not hasattr(u, 'gcc'):   # is the other compiler of the same opinion?
            rc, o, e = sh('g++ %s -w -fsyntax-only %s' % (u.flags(tree, u.w), u.path), 600)
            u.gcc = rc != 0 and any(re.search(r': (fatal )?error: ', l) and l.startswith(tree.d + '/') for l in e.split('\n'))
        for (q, en), v in out.items():
            u.dropped[en] = (v, inlib(v) and u.gcc); s = files[q]; i = re.search(r'^\s*ENTRY\(%s\)' % en, s, re.M).start(); d = 0; j = s.index('{', i)
            for t in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])+\'|//[^\n]*|[{}]', s[j:]):
                d += {'{': 1, '}': -1}.get(t.group(0), 0)
                if d == 0: break
            files[q] = s[:i] + re.sub(r'[^\n]', ' ', s[i:j + t.end()]) + s[j + t.end():]
        for q, s in files.items():
            n = os.path.join(u.w, os.path.basename(q)); open(n, 'w').write(s)
            if q == u.path: u.path = n
        u.entries = [x for x in u.entries if x[0] not in u.dropped]
        return True
    def native(u, tag, cc):
        out = os.path.join(u.w, 'native-' + tag)
        rc, o, e = sh('%s %s -DNATIVE -w %s %s %s/rt/native.cc -o %s %s' % (cc, u.flags(tree, u.w), u.natflags, u.path, V, out, ' '.join(u.nat)), 600)
        # native.cc needs C++11; compile separately
        return out if rc == 0 else None
    nat_lock = threading.Lock(); nats = {}
    def get_native(u, tag):
        with nat_lock:
            key = (u.name, tag)
            if key not in nats: nats[key] = pool2.submit(build_native, u, tag)
        return nats[key].result()
    NATCC = {'asan': 'g++ -g -fsanitize=address -fno-omit-frame-pointer', 'plain': 'g++ -g', 'zero': 'clang++ -g -fsanitize=address -ftrivial-auto-var-init=zero', 'pat': 'clang++ -g -fsanitize=address -ftrivial-auto-var-init=pattern', 'o0': 'g++ -g -O0 -fsanitize=address,undefined -fno-sanitize-recover=undefined'}
    def build_native(u, tag):
        cc = NATCC[tag]; out = os.path.join(u.w, 'native-' + tag)
        cmd = '%s -std=c++11 -w -DNATIVE -I%s/rt %s -c %s/rt/native.cc -o %s.main.o && %s %s -DNATIVE -w %s %s %s.main.o -o %s %s' % (cc, V, ' '.join('-D' + d for d in u.nat if d.startswith('SYM_')), V, out, cc, u.flags(tree, u.w), u.natflags if tag != 'o0' else '', u.path, out, out, ' '.join(x for x in u.nat if not x.startswith('SYM_')))
        rc, o, e = sh(cmd, 600)
        return (out, None) if rc == 0 else (None, e[-1500:])
    pool2 = ThreadPoolExecutor(JOBS)
    def run_native(u, tag, entry, replay, obs=None, fill=None, timeout=20):
        out, err = get_native(u, tag)
        if not out: return ('nobuild', err)
        env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1' + (':max_malloc_fill_size=65536:malloc_fill_byte=%d' % fill if fill is not None else ''); env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=98'
        if fill is not None: env['MALLOC_PERTURB_'] = str(fill ^ 255 if fill else 255)
        d = tempfile.mkdtemp(dir=u.w)
        rc, o, e = sh([out, entry, replay] + ([obs] if obs else []), timeout, cwd=d, env=env)
        return (rc, o + e)
    list(pool.map(prep, units)); feng.result()
    rdir = os.path.join(V, 'build', 'replays', P); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + '/*'): os.remove(f)
    tasks = []
    for u in units:
        pool2.submit(get_native, u, 'asan')
        for en, opts in u.entries:
            for i, args in enumerate(expand(opts, tier)): tasks.append((u, en, opts, args, i))
    def sx(t):
        u, en, opts, args, i = t; out = os.path.join(u.w, '%s.%d.json' % (en, i)); rd = os.path.join(u.w, 'r%s.%d' % (en, i)); os.makedirs(rd)
        samples = '6'
        tb = float(args[args.index('--time') + 1])
        rc, o, e = sh([SX, u.w + '/all.bc', '--entry', en, '--out', out, '--replay-dir', rd, '--repo', tree.inc, '--samples', samples] + args, tb + 120)
        if not os.path.exists(out): return (t, None, 'engine exited %s: %s' % (rc, e[-800:]))
        try: return (t, json.load(open(out)), None)
        except ValueError as x: return (t, None, 'bad output: %s' % x)
    tasks.sort(key=lambda t: -float(t[2].get('weight', '1')))
    results = list(pool.map(sx, tasks))
    # ---- assess
    errors = []; violations = []; unconfirmed = []; findings = []
    agg = dict(paths=0, instructions=0, queries=0, solver_s=0.0, asserts=0, assert_queries=0, memory_checks=0, forks=0, done=0); funcs = set(); samples = []; validated = 0; per = []; kf_hit = set()
    witness = {}; missing = {}
    jobs = []
    for t, r, err in results:
        u, en, opts, args, i = t; tag = en + (' ' + ' '.join(x for x in args if '=' in x) if any('=' in x for x in args) else '')
        if err: errors.append('%s: %s' % (tag, err)); continue
        for k in agg: agg[k] += r.get(k, 0)
        funcs |= set(r['functions'])
        per.append({'entry': tag, 'paths': r['paths'], 'complete': r['complete'], 'queries': r['queries'], 'solver_s': round(r['solver_s'], 3), 'wall_s': round(r['wall_s'], 2), 'assertions': r['assertions'][:12], 'witnesses': r['witness']})
        if a.v: print(json.dumps(per[-1]), r['incomplete_why'])
        iskf = 'known' in opts
        if not r['complete'] and not r['violations']: errors.append('%s: exploration incomplete: %s' % (tag, '; '.join(r['incomplete_why'])[:400] or 'budget'))
        elif not r['complete'] and not iskf: errors.append('%s: exploration incomplete: %s' % (tag, '; '.join(r['incomplete_why'])[:400] or 'budget'))
        witness.setdefault(en, set()).update(r['witness']); missing.setdefault(en, set()).update(r['missing_witness'])
        if r['asserts'] == 0 and r['memory_checks'] == 0: errors.append('%s: vacuous (nothing was checked)' % tag)
        if r['done'] == 0 and not r['violations']: errors.append('%s: vacuous (no path completed)' % tag)
        for v in r['violations']: jobs.append((t, v))
        if not iskf:
            for sm in r['samples']: jobs.append((t, sm))
    for en in missing:
        m = missing[en] - witness.get(en, set())
        if m: errors.append('%s: vacuous: never reached %s' % (en, sorted(m)))
    def confirm(j):
        (u, en, opts, args, i), v = j
        if 'kind' not in v:  # sample
            rp = tempfile.mktemp(dir=u.w); ob = rp + '.obs'
            open(rp, 'w').write(v['inputs'])
            rc, o = run_native(u, 'asan', en, rp, ob)
            if rc == 'nobuild': return ('error', 'native build failed: ' + str(o))
            if rc in (98, 77) or (isinstance(rc, int) and -64 < rc < 0 and rc != -9):
                # the model of a path the engine accepted fails in the real code: a concrete counterexample all the same
                m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|ASSERT-FAIL[^\n]*)', str(o)); rp2 = rp + '.viol'; shutil.copy(rp, rp2)
                return ('confirmed', dict(v, kind='native', msg='replaying a solver model on the real code fails', loc=m.group(1) if m else 'signal', replay=rp2), (m.group(1) if m else 'killed by signal') + ' [asan]')
            if rc != 0: return ('mismatch', 'native run of a sampled path of %s ended with %s: %s; inputs %s' % (en, rc, o[-600:], v['inputs'][:600]))
            got = open(ob).read()
            if got != v['obs']: return ('mismatch', '%s: observed values differ; inputs %s; native:\n%s\nsymbolic:\n%s' % (en, v['inputs'][:400], got[:600], v['obs'][:600]))
            return ('ok', v)
        rp = v['replay']; tries = []
        def bad(rc, o):
            if rc == 'nobuild': return None
            k = v['kind']
            if rc == 77: return 'assertion failed natively: ' + re.sub(r'^.*ASSERT-FAIL', '', o, flags=re.S).strip()[:200]
            if rc == -999: return 'native run does not terminate'
            if rc == 98: m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)', o); return 'sanitizer: ' + (m.group(1) if m else 'error')
            if isinstance(rc, int) and rc < 0: return 'killed by signal %d' % -rc
            if rc in (134, 139, 136, 132): return 'killed by signal %d' % (rc - 128)
            if rc == 79: return 'uncaught exception natively: ' + o.strip()[-200:]
            return None
        for tag, fill in (('asan', None), ('plain', None), ('o0', None), ('pat', 255), ('zero', 0), ('asan', 255), ('asan', 1), ('plain', 255)):
            rc, o = run_native(u, tag, en, rp, None, fill); b = bad(rc, o)
            if b: return ('confirmed', v, '%s [%s]' % (b, tag))
            tries.append('%s:%s %s' % (tag, rc, str(o)[-60:].strip() if rc == 'nobuild' else ''))
            if tag == 'plain' and 'symname' not in v and not re.search(r'uninit|memory|null|unreach|abort|term', v['kind'] + v['inputs']) and fill is None and False: break
        return ('unconfirmed', v, '; '.join(tries))
    kfinds = {}
    for j, res in zip(jobs, pool.map(confirm, jobs)):
        (u, en, opts, args, i), v = j
        if res[0] == 'ok':
            validated += 1
            if len(samples) < 8: samples.append({'entry': en, 'inputs': v['inputs'][:600], 'observed': v['obs'][:300]})
        elif res[0] in ('mismatch', 'error'): errors.append(res[1])
        elif res[0] == 'confirmed':
            v = res[1]
            if 'known' in opts:
                kfinds.setdefault(opts['known'], []).append((en, v, res[2]))
            else:
                dst = os.path.join(rdir, '%s.%d.replay' % (en, len(violations))); shutil.copy(v['replay'], dst)
                with open(dst, 'a') as f: f.write('# confirmed: %s\n# stack:\n%s\n# replay: compile harness/%s.cc with rt/native.cc (-DNATIVE) and run: prog %s THISFILE\n' % (res[2].replace('\n', ' '), '\n'.join('#   ' + x for x in v.get('stack', [])), u.name, en))
                violations.append((en, v, res[2], dst))
        else: unconfirmed.append('%s: %s: %s at %s not reproduced natively (%s) inputs: %s' % (en, v['kind'], v['msg'], v['loc'], res[2], v['inputs'].replace('\n', ', ')[:500]))
    for k in known:
        if k.get('status') == 'open':
            if k['id'] in kfinds: en, v, how = kfinds[k['id']][0]; print('KNOWN-FINDING: property=%s %s: %s' % (P, k['id'], k['what'])); findings.append(k['id'])
    openids = {k['id'] for k in known if k.get('status') == 'open'}
    for kid, l in kfinds.items():
        if kid not in openids:   # not (or no longer) listed: an ordinary violation
            for en, v, how in l:
                dst = os.path.join(rdir, '%s.%d.replay' % (en, len(violations))); shutil.copy(v['replay'], dst); violations.append((en, v, how, dst))
    for u in units:
        for en, (l, lib) in u.dropped.items():
            l = l.replace(work, '')
            if lib:
                dst = os.path.join(rdir, '%s.%d.replay' % (en, len(violations))); open(dst, 'w').write('# %s\n# the library no longer compiles for what %s in harness/%s.cc does (g++ and clang++ agree): compile it to see\n' % (l, en, u.name))
                violations.append((en, {'msg': 'the library no longer compiles for a program relying on this', 'kind': 'compile', 'loc': re.sub(r'^/inc/|:.*', '', l), 'inputs': ''}, l, dst))
            else: errors.append('%s does not compile against the current sources: %s' % (en, l))
    errors += unconfirmed
    wall = time.time() - t0
    ev = {'property': P, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(violations),
          'assumptions': [x for u in units for x in u.assume],
          'coverage': {'states': agg['paths'], 'transitions': agg['instructions'], 'traces_validated_against_impl': validated, 'samples': samples,
            'symbolic_paths': agg['paths'], 'forks': agg['forks'], 'assertions_checked': agg['asserts'], 'assertion_queries': agg['assert_queries'], 'memory_accesses_checked': agg['memory_checks'], 'solver_queries': agg['queries'], 'solver_s': round(agg['solver_s'], 3),
            'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs), 'bounds': [x for u in units for x in u.bounds], 'entries': per, 'known_findings_seen': findings, 'errors': errors[:20],
            'explanation': 'states = symbolic execution paths (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically; traces_validated = sampled path models run on the native (ASan) build with equal observations'}}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, P), 'w'), indent=1)
    seen = set()
    for en, v, how, dst in violations:
        key = (en, re.sub(r'\d+', '#', v['msg']), v['loc'])
        if key in seen: continue
        seen.add(key); print('%s: %s (%s) at %s; %s' % (en, v['msg'], v['kind'], v['loc'], how)); print('  inputs: ' + v['inputs'].replace('\n', ', ')[:400])
        print('VIOLATION property=%s replay=%s' % (P, dst))
    print('%s %s: %d paths, %d queries (%.1fs solver), %d functions, %d traces validated, %.1fs' % (P, tier, agg['paths'], agg['queries'], agg['solver_s'], len(funcs), validated, wall))
    if violations: return 1
    for e in errors: print('ERROR property=%s %s' % (P, e))
    return 2 if errors else 0
main()
