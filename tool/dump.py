"""Readable dump of a function's canonical form (debugging aid, not a check): dump.py X.json 'regex' [index]"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fn import *


class Namer:
    def __init__(self):
        self.n = {}
        self.out = []

    def cond(self, g):
        if g in (0, 1):
            return 'TF'[1 - g]
        key = ('c', g)
        if key in self.n:
            return self.n[key]
        v, lo, hi = B.nodes[g]
        a = self.e(B.atoms[v])
        l, h = self.cond(lo), self.cond(hi)
        if (l, h) == ('F', 'T'):
            s = a
        elif (l, h) == ('T', 'F'):
            s = '!' + a
        elif l == 'F':
            s = '%s&%s' % (a, h)
        elif h == 'F':
            s = '!%s&%s' % (a, l)
        elif h == 'T':
            s = '(%s|%s)' % (a, l)
        elif l == 'T':
            s = '(!%s|%s)' % (a, h)
        else:
            s = '(%s?%s:%s)' % (a, h, l)
        if len(s) > 30:
            nm = 'C%d' % len(self.n)
            self.out.append('    %s = %s' % (nm, s))
            s = nm
        self.n[key] = s
        return s

    def e(self, x):
        if not isinstance(x, E):
            return '(' + ','.join(self.e(y) for y in x) + ')' if isinstance(x, tuple) else str(x)
        if x in self.n:
            return self.n[x]
        k = x.k
        if k == 'poly':
            s = '+'.join(('' if c == 1 and m else '-' if c == -1 and m else str(c) + ('*' if m else '')) + '*'.join(self.e(y) for y in m) for m, c in x.a[0]) or '0'
            s = s.replace('+-', '-')
            if len(x.a[0]) > 1:
                s = '(' + s + ')'
        elif k == 'part':
            s = ('min' if x.a[1] == 'min' else '') + '{' + '; '.join(self.e(v) + ('' if g == 1 else ' if ' + self.cond(g)) for v, g in x.a[0]) + '}'
        elif k in ('fadd', 'fmul', 'fdiv', 'flt', 'feq'):
            s = '(%s%s%s)' % (self.e(x.a[0]), {'fadd': ' + ', 'fmul': ' . ', 'fdiv': ' / ', 'flt': ' < ', 'feq': ' == '}[k], self.e(x.a[1]))
        elif k == 'lt0':
            s = '(%s<0)' % self.e(x.a[0])
        elif k in ('eq0', 'feq0'):
            s = '(%s==0)' % self.e(x.a[0])
        elif k == 'fneg':
            s = '-' + self.e(x.a[0])
        elif k == 'ld':
            s = '[%s]%s' % (self.e(x.a[0]), {'i32': 'i', 'float': 'f', 'double': 'd', 'i64': 'l', 'ptr': 'p'}.get(x.a[1], x.a[1]))
        elif k == 'arg':
            s = x.a[2]
        elif k == 'iv':
            s = 'iv%d' % x.a[1]
        elif k == 'f':
            s = repr(x.a[0])
        elif k == 'b2i':
            s = 'int(%s)' % self.cond(x.a[0])
        elif k in ('mem', 'alloca', 'callv', 'vecdata', 'vecbytes', 'mu', 'exit', 'exitval', 'ldv', 'after', 'trip', 'opaque'):
            s = k + '(' + ','.join(self.e(y) for y in x.a[1:]) + ')'
        else:
            s = k + '(' + ','.join(self.e(y) for y in x.a) + ')'
        if len(s) > 60:
            nm = '$%d' % len(self.n)
            self.out.append('    %s = %s' % (nm, s))
            s = nm
        self.n[x] = s
        return s

    def flush(self):
        for l in self.out:
            print(l)
        self.out = []


def dump(f):
    N = Namer()
    print(f.dem)
    for l in f.loops.values():
        print('loop', l.id, 'in', l.parent, 'trip', N.e(f.trip(l.id)), 'exits', len(l.exits), 'entry', N.cond(f.pc(l.header, l.parent)))
        N.flush()
    mus = set()
    for b in f.order:
        for i in f.blk[b]['ins']:
            line = None
            if i['op'] == 'store':
                v = f.X(i['ops'][0])
                line = 'store %s %s := %s' % (i['sz'], N.e(f.X(i['ops'][1])), N.e(v))
            elif i['op'] in ('call', 'invoke') and not re.match(r'llvm\.(lifetime|fabs|dbg)', i.get('callee', '')):
                line = 'call%d %s (%s)' % (i['id'], re.sub(r'std::vector<[^()]*>::', 'vec::', i.get('dem', '?')).split('(')[0][:60], ', '.join(N.e(f.X(o)) for o in i['ops']))
            elif i['op'] == 'ret' and i['ops']:
                line = 'ret ' + N.e(f.X(i['ops'][0]))
            if i['op'] == 'phi':
                x = f.X(['v', i['id']])
                if x.k == 'mu' and x.a[2] == i['id'] and x not in mus:
                    mus.add(x)
            if line:
                c = N.cond(f.pc(b))
                N.flush()
                print('L%d %s   IF %s   @%s' % (f.inner[b], line, c, i.get('dbg', '')))
    for m in sorted(mus):
        a, b = f.phi_parts(m)
        s = 'MU %s init %s next %s' % (N.e(m), N.e(a) if isinstance(a, E) else N.cond(a), N.e(b) if isinstance(b, E) else N.cond(b))
        N.flush()
        print(s)


if __name__ == '__main__':
    M = Module(sys.argv[1])
    ns = M.find(sys.argv[2])
    for k, n in enumerate(ns):
        print(k, M.fj[n]['dem'])
    if len(sys.argv) > 3:
        dump(M.fn(ns[int(sys.argv[3])]))
    elif len(ns) == 1:
        dump(M.fn(ns[0]))
