#!/usr/bin/env python3
"""writes harness/vfun.h: a function, and methods, of every arity the library supports, each recording its arguments"""
import os
T = ['int', 'short', 'unsigned char', 'long', 'char']; o = ['// written by tools/mkfun.py', 'namespace vf {', 'extern long LOG[21]; extern int CALLS, WHICH; extern const void* SELF;']
for n in range(21):
    ts = [T[i % 5] for i in range(n)]; d = ', '.join('%s a%d' % (t, i + 1) for i, t in enumerate(ts)); ty = ', '.join(ts)
    body = lambda w, s: '{ CALLS++; WHICH = %d; SELF = %s; %s' % (w, s, ''.join('LOG[%d] = a%d; ' % (i, i + 1) for i in range(n)))
    o += ['inline long fr%d(%s) %sreturn %dL + LOG[0]; }' % (n, d, body(n, '0'), 1000 + n), 'inline void fv%d(%s) %s}' % (n, d, body(100 + n, '0'))]
    o += ['struct M%d { int id; long r(%s) %sreturn id; }' % (n, d, body(n, 'this')), '  void v(%s) %s}' % (d, body(100 + n, 'this')), '  long rc(%s) const %sreturn id + 1L; }' % (d, body(200 + n, 'this')), '  void vc(%s) const %s}' % (d, body(300 + n, 'this')), '};']
o += ['}']
for n in range(21):
    ts = [T[i % 5] for i in range(n)]
    o += ['#define ARGS%d(X) %s' % (n, ' '.join('X(%d, %s)' % (i + 1, t) for i, t in enumerate(ts))), '#define LIST%d %s' % (n, ', '.join('x%d' % (i + 1) for i in range(n)))]
o += ['#define LISTA%d %s' % (n, ''.join(', AI[%d]' % i for i in range(n))) for n in range(21)]
o += ['#define TYPES%d %s' % (n, ', '.join(T[i % 5] for i in range(n))) for n in range(21)]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'vfun.h'), 'w').write('\n'.join(o) + '\n')
