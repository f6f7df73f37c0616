"""Memory bounds: every access through an index that is a polynomial of loop counters and sizes stays inside its object."""
import itertools
import re
from fractions import Fraction
from expr import *
from fn import Stop, nbytes
from mem import KIND

SZ = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}


def lin(p, x):
    """p = a*x + b, or None when x occurs in another way"""
    a, b = {}, {}
    for m, c in pmap(p).items():
        n = m.count(x)
        if n == 0:
            b[m] = c
        elif n == 1:
            k = list(m)
            k.remove(x)
            a[tuple(k)] = c
        else:
            return None
    return frompmap(a), frompmap(b)


def inside(e, x):
    return any(y is x for y in walk(e, conds=False))


class Prover:
    """facts: polynomials known to be >= 0"""

    def __init__(self, F, B_, facts=(), budget=4000):
        self.F = F
        self.b = B_
        self.facts = list(facts)
        self.floor = {}
        for f in self.facts:
            m = pmap(f)
            xs = [k for k in m if k]
            if len(xs) == 1 and len(xs[0]) == 1 and m[xs[0]] == 1 and xs[0][0].k == 'arg' and -m.get((), 0) > 1:
                x = xs[0][0]
                self.floor[x] = max(self.floor.get(x, 0), -m.get((), 0))
        self.left = budget

    def rank(self, x):
        """elimination order: what may depend on what goes first"""
        k = x.k
        if k == 'exitval':
            return 0
        if k == 'mu':
            return 1 + 0.001 * (100 - self.depth(x.a[1]))
        if k == 'part':
            return 0.5
        if k == 'iv':
            return 3 + 0.001 * (100 - self.depth(x.a[1]))
        if k in ('umin', 'umax', 'smin', 'smax'):
            return 2
        if k in ('udiv', 'sdiv'):
            return 5
        return 9

    def depth(self, L):
        return self.F.loops[L].depth if L in self.F.loops else 0

    def prove(self, p, d=0):
        """p >= 0"""
        if intval(p) is not None:
            return intval(p) >= 0
        if nonneg(p):
            return True
        self.left -= 1
        if d > 14 or self.left < 0:
            return False
        if p.k == 'part':
            return all(self.prove(v, d + 1) for v, g in p.a[0])
        atoms = sorted(patoms(p), key=lambda x: (self.rank(x), -x.id))
        for x in atoms:
            r = self.rank(x)
            ab = lin(p, x)
            if ab is None:
                continue
            a, b = ab
            if r >= 9:
                # a size: only a constant lower bound helps
                if x.k == 'arg' and x in self.floor and self.prove(a, d + 3) and self.prove(padd(b, pscale(a, self.floor[x])), d + 2):
                    return True
                continue
            if self.prove(a, d + 3):
                cands = self.lower(x)
            elif self.prove(pscale(a, -1), d + 3):
                cands = self.upper(x)
            else:
                continue
            for c in cands:
                # c: list of polynomials, one of which x is at least / at most
                if all(self.prove(padd(b, pmul(a, q)), d + 1) for q in c):
                    return True
            if r < 3:
                return False
        # combine with a fact on a whole monomial
        for m, c in pmap(p).items():
            if c < 0 and m:
                for f in self.relevant(m):
                    fc = pmap(f).get(m)
                    if fc is not None and fc < 0:
                        q = padd(p, pscale(f, -(c / fc)))
                        if len(pmap(q)) <= len(pmap(p)) + 3 and self.prove(q, d + 3):
                            return True
        return False

    def relevant(self, m):
        out = [f for f in self.facts if m in pmap(f)]
        for x in m:
            if x.k == 'udiv' or x.k == 'sdiv':
                a, c = x.a[0], x.a[1]
                out.append(psub(a, pmul(x, c)))                        # c*q <= a
                out.append(padd(pmul(x, c), c, I(-1), pscale(a, -1)))  # c*q >= a-c+1
        if len(m) > 1:
            for x in m:
                rest = list(m)
                rest.remove(x)
                for f in self.facts:
                    if (x,) in pmap(f) and x.k in ('iv', 'udiv', 'mu'):
                        r = frompmap({tuple(rest): Fraction(1)})
                        if nonneg(r):
                            out.append(pmul(f, r))
        return out

    def lower(self, x):
        """alternatives; each a list of polynomials p with x >= min(list)"""
        out = []
        if x.k == 'part':
            return [[v for v, g in x.a[0]]]
        if x.k == 'exitval':
            return [[v for v, g in parts(x.a[2])]]
        if x.k == 'mu':
            r = self.b.mubounds(x)
            return [[r[0]]] if r else []
        for f in self.facts:
            ab = lin(f, x)
            if ab and intval(ab[0]) is not None and intval(ab[0]) > 0:
                out.append([pscale(ab[1], -1 / intval(ab[0]))])
        if x.k in ('umin', 'smin'):
            out.append(list(x.a))
        if x.k in ('umax', 'smax'):
            out += [[q] for q in x.a]
        if x.k in ('iv', 'udiv', 'umin', 'umax'):
            out.append([I(0)])
        if x.k == 'udiv' and intval(x.a[1]):
            out.append([pscale(padd(x.a[0], I(1 - intval(x.a[1]))), 1 / intval(x.a[1]))])
        return out

    def upper(self, x):
        out = []
        if x.k == 'part':
            return [[v for v, g in x.a[0]]]
        if x.k == 'exitval':
            return [[v for v, g in parts(x.a[2])]]
        if x.k == 'mu':
            r = self.b.mubounds(x)
            return [[r[1]]] if r else []
        for f in self.facts:
            ab = lin(f, x)
            if ab and intval(ab[0]) is not None and intval(ab[0]) < 0:
                out.append([pscale(ab[1], -1 / intval(ab[0]))])
        if x.k == 'iv':
            t = self.b.F.trip(x.a[1]) if x.a[0] == self.b.F.name else None
            if t is not None and t.k != 'trip':
                if t.k == 'part' and t.a[1] == 'min':
                    out += [[padd(v, I(-1))] for v, g in t.a[0] if g == 1]
                elif t.k == 'part':
                    out.append([padd(v, I(-1)) for v, g in t.a[0]])
                else:
                    out.append([padd(t, I(-1))])
        if x.k in ('umin', 'smin'):
            out += [[q] for q in x.a]
        if x.k in ('umax', 'smax'):
            out.append(list(x.a))
        if x.k == 'udiv' and intval(x.a[1]):
            out.append([pscale(x.a[0], 1 / intval(x.a[1]))])
        return out


class Bounds:
    def __init__(self, mod, F, extents):
        self.mod, self.F = mod, F
        self.ext = extents           # arg name -> size in bytes (expression)
        self._mu = {}
        self.ctx = 1

    # ---- cursors that advance by a bounded amount per iteration
    def step(self, mu):
        """(least, most) advance of a loop-carried cursor per iteration, and its initial value; or None"""
        key = (mu, self.ctx)
        if key in self._mu:
            return self._mu[key]
        self._mu[key] = None
        F = self.F
        if mu.a[0] != F.name or F.ins[mu.a[2]]['ty'] not in ('ptr', 'i64', 'i32'):
            return None
        init, nx = F.phi_parts(mu)
        if init.k == 'part':
            return None
        rs = [self.rise(v, mu) for v, g in self.live(nx)]
        if None in rs:
            return None
        lo, hi = self.most([pscale(r[0], -1) for r in rs]), self.most([r[1] for r in rs])
        if lo is None or hi is None:
            return None
        r = (pscale(lo, -1), hi, init)
        L = mu.a[1]
        if any(x.k in ('mu', 'exitval') or x.k == 'iv' and (x.a[1] == L or F.is_inside(x.a[1], L)) for q in r[:2] for x in patoms(q)):
            return None
        self._mu[key] = r
        return r

    def live(self, v):
        """leaves that are possible where the access happens"""
        return [(w, g) for w, g in parts(v) if self.ctx == 1 or B.And(g, self.ctx)]

    def context(self, g):
        """what the condition says about the sizes alone, which no loop changes"""
        out = 1
        for a, v in self.literals(g):
            if all(x.k == 'arg' for x in patoms(a.a[0])):
                t = B.atom(a)
                out = B.And(out, t if v else B.Not(t))
        return out

    def mubounds(self, mu):
        s = self.step(mu)
        if s is None:
            return None
        iv = self.F.loops[mu.a[1]].iv
        return padd(s[2], pmul(iv, s[0])), padd(s[2], pmul(iv, s[1]))

    def most(self, ps):
        """the greatest of some polynomials, if the facts order them"""
        ps = list(dict.fromkeys(ps))
        if len(ps) == 1:
            return ps[0]
        fs = [(padd(pscale(a.a[0], -1), I(-1)) if v else a.a[0]) for a, v in self.literals(self.ctx) if a.k == 'lt0']
        for p in ps:
            if all(q is p or Prover(self.F, self, fs, budget=200).prove(psub(p, q)) for q in ps):
                return p
        return None

    def rise(self, v, mu):
        """(least, most) of v - mu"""
        F = self.F
        if v.k == 'part':
            rs = [self.rise(w, mu) for w, g in self.live(v)]
            if None in rs:
                return None
            lo, hi = self.most([pscale(r[0], -1) for r in rs]), self.most([r[1] for r in rs])
            return None if lo is None or hi is None else (pscale(lo, -1), hi)
        d = psub(v, mu)
        xs = [x for x in patoms(d) if x.k in ('mu', 'exitval')]
        if not xs:
            ps = [x for x in patoms(d) if x.k == 'part']
            if len(ps) == 1 and lin(d, ps[0]) is not None:
                a, b = lin(d, ps[0])
                return self.rise(mkpart([(padd(pmul(a, w), b, mu), g) for w, g in ps[0].a[0]]), mu)
            return (d, d)
        ex = [x for x in patoms(v) if x.k == 'exitval']
        if len(ex) == 1 and lin(v, ex[0]) and intval(lin(v, ex[0])[0]) == 1:
            x = ex[0]
            rest = lin(v, x)[1]
            r = self.after(x, mu)
            return None if r is None else (padd(r[0], rest), padd(r[1], rest))
        return None

    def after(self, x, mu):
        """(least, most) of the value a variable has after loop k, relative to mu"""
        F = self.F
        k = x.a[1]
        T = F.trip(k)
        if T.k in ('trip', 'part'):
            T = self.tripmax(k) if T.k == 'part' else None
            if T is None:
                return None
        los, his = [], []
        for w, g in self.live(x.a[2]):
            y = [q for q in patoms(w) if q.k == 'mu' and q.a[1] == k]
            z = [q for q in patoms(w) if q.k == 'exitval']
            if len(y) == 1 and not z and intval(lin(w, y[0])[0]) == 1:
                y = y[0]
                s = self.step(y)
                if s is None:
                    return None
                b = self.rise(s[2], mu)
                if b is None:
                    return None
                last = lin(w, y)[1]
                # the value is y_last + last, and that is what the next iteration would start from
                los.append(padd(b[0], pmul(s[0], padd(T, I(-1))), last))
                his.append(padd(b[1], pmul(s[1], padd(T, I(-1))), last))
            elif len(z) == 1 and intval(lin(w, z[0])[0]) == 1:
                # left over from a loop inside loop k: relative to k's own cursor
                yk = self.cursor_of(z[0], k)
                if yk is None:
                    return None
                s = self.step(yk)
                if s is None:
                    return None
                b = self.rise(s[2], mu)
                r = self.rise(w, yk)
                if b is None or r is None:
                    return None
                los.append(padd(b[0], pmul(s[0], padd(T, I(-1))), r[0]))
                his.append(padd(b[1], pmul(s[1], padd(T, I(-1))), r[1]))
            else:
                return None
        if not los:
            return None
        lo, hi = self.most([pscale(p, -1) for p in los]), self.most(his)
        return None if lo is None or hi is None else (pscale(lo, -1), hi)

    def cursor_of(self, x, k):
        """the cursor of loop k that the value x, left by a loop inside k, starts from"""
        seen = set()
        while x is not None and x not in seen:
            seen.add(x)
            nxt = None
            for w, g in parts(x.a[2]):
                for q in patoms(w):
                    if q.k == 'mu' and q.a[1] == x.a[1]:
                        s = self.F.phi_parts(q)[0]
                        for m in patoms(s):
                            if m.k == 'mu' and m.a[1] == k:
                                return m
                    elif q.k == 'exitval':
                        nxt = q
            x = nxt
        return None

    def tripmax(self, k):
        t = self.F.trip(k)
        if t.k == 'trip':
            return None
        if t.k == 'part':
            return self.most([v for v, g in t.a[0]])
        return t

    # ---- facts along the way to an instruction
    def guard(self, b):
        F = self.F
        L = F.inner[b]
        g = F.pc(b, L)
        while L >= 0:
            P = F.loops[L].parent
            e = 0
            for q in F.loops[L].entries:
                e = B.Or(e, F.edge(q, F.loops[L].header, P))
            g = B.And(g, e)
            L = P
        return g

    def literals(self, g):
        """atoms that the condition settles: [(atom, value)]"""
        out = []
        if g <= 1:
            return out
        for a in B.support(g):
            if a.k not in ('lt0', 'eq0'):
                continue
            if B.restrict(g, a, 1) == 0:
                out.append((a, 0))
            elif B.restrict(g, a, 0) == 0:
                out.append((a, 1))
        return out

    def facts(self, g, L=None):
        fs = []
        neq = []
        for a, v in self.literals(g):
            p = a.a[0]
            if a.k == 'lt0':
                fs.append(padd(pscale(p, -1), I(-1)) if v else p)
            elif v:
                fs += [p, pscale(p, -1)]
            else:
                neq.append(p)
        while L is not None and L >= 0:
            l = self.F.loops[L]
            t = self.F.trip(L)
            if t.k not in ('trip', 'part'):
                fs.append(padd(t, I(-1), pscale(l.iv, -1)))
            elif t.k == 'part' and t.a[1] == 'min':
                fs += [padd(v, I(-1), pscale(l.iv, -1)) for v, h in t.a[0] if h == 1]
            elif t.k == 'part':
                # a minimum written as a choice: a when a < b
                m = self.asmin(t)
                fs += [padd(v, I(-1), pscale(l.iv, -1)) for v in m]
            fs.append(l.iv)
            L = l.parent
        P = Prover(self.F, self, fs, budget=300)
        for p in neq:
            if P.prove(p) or p.k == 'ld' and p.a[1] == 'i64':        # counts read from a stream are unsigned
                fs.append(padd(p, I(-1)))
            elif P.prove(pscale(p, -1)):
                fs.append(padd(pscale(p, -1), I(-1)))
        return [f for f in fs if f.k != 'part' and intval(f) is None]

    def asmin(self, t):
        """leaves v such that t <= v always"""
        out = []
        for v, g in t.a[0]:
            ok = True
            for w, h in t.a[0]:
                if w is v:
                    continue
                # under h the value is w; is w <= v there?
                P = Prover(self.F, self, [padd(pscale(a.a[0], -1), I(-1)) if val else a.a[0] for a, val in self.literals(h) if a.k == 'lt0'], budget=200)
                ok = ok and P.prove(psub(v, w))
            if ok:
                out.append(v)
        return out

    # ---- objects
    def size(self, o):
        F = self.F
        if o.k == 'mem' and o.a[0] == F.name:
            i = F.ins[o.a[1]]
            if i['callee'] == 'calloc':
                return imul(F.X(i['ops'][0]), F.X(i['ops'][1]))
            if i['callee'] in ('malloc', '_Znwm', '_Znam'):
                return F.X(i['ops'][0])
        if o.k == 'alloca' and o.a[0] == F.name:
            z = F.ins[o.a[1]].get('asz')
            return None if z is None else I(z)
        if o.k == 'callv' and o.a[0] == F.name:
            return self.result_size(F.ins[o.a[1]])
        if o.k == 'arg' and o.a[0] == F.name:
            return self.ext.get(o.a[2])
        if o.k == 'ld' and o.a[0].k == 'arg' and o.a[0].a[0] == F.name:
            # a result handed back by reference: the block the function put there
            vs = [F.X(s['ops'][0]) for s in F.stores() if F.X(s['ops'][1]) is o.a[0]]
            return self.size(vs[0]) if len(vs) == 1 and vs[0].k in ('mem', 'callv') else None
        if o.k == 'g':
            g = self.mod.globals.get(o.a[0])
            return I(g['sz']) if g and g.get('sz') else None
        return None

    def result_size(self, i):
        """size of the block a helper allocates and returns, over the operands of the call"""
        n = i.get('callee')
        if n not in self.mod.fj or not self.mod.fj[n].get('blocks'):
            return None
        G = self.mod.fn(n)
        rs = set()
        for b in G.order:
            for r in G.blk[b]['ins']:
                if r['op'] == 'ret' and r['ops']:
                    for v, g in parts(G.X(r['ops'][0])):
                        if intval(v) != 0:      # (no block for an empty array)
                            rs.add(Bounds(self.mod, G, {}).size(v) if v.k in ('mem', 'callv') else None)
        if len(rs) != 1 or None in rs:
            return None
        z = rs.pop()
        env = {}
        for x in set(walk(z)):
            if x.k == 'arg' and x.a[0] == n:
                env[x] = self.F.X(i['ops'][x.a[1]])
            elif x.k in ('mem', 'callv', 'mu', 'iv', 'ld', 'alloca', 'after', 'exitval'):
                return None
        return subst(z, env)

    def accesses(self):
        """(instruction, pointer expression, bytes)"""
        F = self.F
        for b in F.order:
            for i in F.blk[b]['ins']:
                if i['op'] == 'load':
                    yield i, F.X(i['ops'][0]), I(i['sz'])
                elif i['op'] == 'store':
                    yield i, F.X(i['ops'][1]), I(i['sz'])
                elif i['op'] in ('call', 'invoke'):
                    n = i.get('callee') or ''
                    if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                        yield i, F.X(i['ops'][0]), F.X(i['ops'][2])
                        yield i, F.X(i['ops'][1]), F.X(i['ops'][2])
                    elif n.startswith('llvm.memset'):
                        yield i, F.X(i['ops'][0]), F.X(i['ops'][2])
                    elif 'Huffman_encode_tree_and_data' in n:
                        yield i, F.X(i['ops'][1]), imul(F.X(i['ops'][2]), I(4))
                    elif 'convertIntArray2ByteArray' in n:
                        yield i, F.X(i['ops'][0]), F.X(i['ops'][1])
                        d = F.load_at(F.X(i['ops'][2]), 'ptr', i)
                        if d is not None:
                            yield i, d, nbytes(F.X(i['ops'][1]))
                    else:
                        for k, z in self.handed(i):
                            yield i, F.X(i['ops'][k]), z

    def handed(self, i):
        """arrays handed to a library function: [(operand, bytes it is entitled to)]"""
        n = i.get('callee')
        f = self.mod.fj.get(n)
        if not f or not f.get('blocks'):
            return []
        X = extents(f)
        names = [a['name'] for a in f['args']]
        env = {mk('arg', n, k, a): self.F.X(i['ops'][k]) for k, a in enumerate(names) if k < len(i['ops'])}
        return [(names.index(a), subst(z, env)) for a, z in X.items()]

    def check(self, emit):
        F = self.F
        ret = [F.X(i['ops'][0]) for b in F.order for i in F.blk[b]['ins'] if i['op'] == 'ret' and i['ops']]
        for i, p, n in self.accesses():
            b = i['b']
            g0 = self.guard(b)
            for v, h in parts(p):
                if intval(v) is not None and intval(v) == 0:
                    continue
                g = B.And(g0, h)
                if g == 0:
                    continue
                o = F.base(v)
                if o is None:
                    emit(i, None, 'pointer of unknown origin')
                    continue
                if o in ret and re.search(r'(^|\*)sz3?_compress', F.short):
                    continue        # the stream itself: see capacity()
                if o.k in ('vecdata', 'vecbytes') or o.k == 'arg' and o.a[2] not in self.ext:
                    continue        # storage of the C++ library; results and compressed data, whose extent the stream layout fixes
                size = self.size(o)
                if size is None:
                    emit(i, None, 'object of unknown size %s' % show(o)[:80])
                    continue
                off = self.expand(v, o)
                if off is None:
                    emit(i, None, 'offset')
                    continue
                self.ctx = self.context(g)
                fs = self.facts(g, F.inner[b])
                ok = True
                for what, q in (('starts before', off), ('ends after', psub(size, padd(off, n)) if size.k != 'part' else None)):
                    if q is None:
                        goods = all(Prover(F, self, fs).prove(psub(s, padd(off, n))) for s, _ in size.a[0])
                    else:
                        goods = Prover(F, self, fs).prove(q)
                    if not goods:
                        emit(i, False, (what, q, o, off, size, n, g, fs))
                        ok = False
                        break
                if ok:
                    emit(i, True, o)

    def expand(self, v, o):
        """offset of pointer v from the start of object o"""
        d = psub(v, o) if o in patoms(v) or v is o else None
        if d is not None:
            return d
        return pmu_offset(self, v, o)


def pmu_offset(b, v, o):
    """the pointer is a cursor: keep it as cursor atom relative to o"""
    return psub(v, o)


# sizes of the arrays callers hand in, by parameter name (documented in include/*.hpp)
def extents(f):
    """bytes behind the array parameters of a library function"""
    d = f['dem']
    n = f['name']
    A = {a['name']: mk('arg', n, k, a['name']) for k, a in enumerate(f['args'])}
    m = re.search(r'<(float|double)>\(', d)
    T = SZ[m.group(1)] if m else 4
    short = d.split('(')[0].split(' ')[-1]
    X = {}
    if re.search(r'sz3?_compress_', short) and 'r1' in A:
        ne = I(1)
        for k in ('r1', 'r2', 'r3'):
            if k in A:
                ne = imul(ne, A[k])
        X = {k: imul(ne, I(T)) for k in ('U', 'V', 'W', 'data')}
        X['precisions'] = X['ebs'] = imul(ne, I(8))
    elif 'sz_decompress_' in short and 'precisions' in A and 'r1' in A:
        ne = imul(A['r1'], A['r2'])
        if 'r3' in A:
            ne = imul(ne, A['r3'])
        X = {'precisions': imul(ne, I(8))}
    elif 'unstructured' in short and 'n' in A and 'm' in A:
        X = {'points': imul(A['n'], I(3 * T)), 'tets_ind': imul(A['m'], I(16))}
        if '_compress' in short:
            X['data'] = imul(A['n'], I(3 * T))
    elif short.startswith('log_transform') and 'data' in A and 'num_elements' in A:
        X = {'data': imul(A['num_elements'], I(T)), 'sign': A['num_elements']}
    return {k: v for k, v in X.items() if k in A}


class Unknown(Exception):
    pass


class Witness:
    """looks for sizes and loop counters, within the loops' own limits, at which a proof obligation fails"""

    def __init__(self, bd, q, g, L):
        self.b, self.F, self.q, self.g = bd, bd.F, q, g
        self.L = L

    def val(self, e, env):
        c = intval(e)
        if c is not None:
            return Fraction(c)
        if e in env:
            return env[e]
        k = e.k
        if k == 'part':
            for v, g in e.a[0]:
                if self.truth(g, env):
                    return self.val(v, env)
            raise Unknown()
        if k in ('umin', 'smin'):
            return min(self.val(x, env) for x in e.a)
        if k in ('umax', 'smax'):
            return max(self.val(x, env) for x in e.a)
        if k in ('udiv', 'sdiv'):
            a, b = self.val(e.a[0], env), self.val(e.a[1], env)
            if a < 0 or b <= 0:
                raise Unknown()
            return Fraction(a // b)
        if k == 'mu':
            r = self.b.mubounds(e)
            if r and r[0] is r[1]:
                return self.val(r[0], env)
            raise Unknown()
        if k == 'poly' or patoms(e) and not (len(patoms(e)) == 1 and list(patoms(e))[0] is e):
            t = Fraction(0)
            for m, c in pmap(e).items():
                p = Fraction(c)
                for x in m:
                    p *= self.val(x, env)
                t += p
            return t
        raise Unknown()

    def truth(self, g, env):
        """value of a condition; every atom must be settled"""
        for a in B.support(g):
            if g <= 1:
                break
            g = B.restrict(g, a, 1 if self.atom(a, env) else 0)
        return g == 1

    def atom(self, a, env):
        if a.k == 'lt0':
            return self.val(a.a[0], env) < 0
        if a.k == 'eq0':
            return self.val(a.a[0], env) == 0
        raise Unknown()

    def possible(self, g, env):
        """can the condition hold, whatever the data"""
        for a in B.support(g):
            if g <= 1:
                break
            try:
                v = 1 if self.atom(a, env) else 0
            except Unknown:
                if any(x.k in ('mu', 'exitval') for x in walk(a)):
                    raise
                continue
            g = B.restrict(g, a, v)
        return g != 0

    def search(self, limit=60000):
        F = self.F
        loops = []
        L = self.L
        while L is not None and L >= 0:
            loops.insert(0, L)
            L = F.loops[L].parent
        seen = set()
        todo = [self.q] + [F.trip(l) for l in loops]
        for a in B.support(self.g):
            todo.append(a)
        args = []
        for e in todo:
            for x in walk(e):
                if x.k == 'arg' and x not in seen:
                    seen.add(x)
                    args.append(x)
        args = [x for x in args if F.j['args'][x.a[1]]['ty'].startswith('i')]
        if len(args) > 4:
            return None
        n = 0
        for sizes in itertools.product(*[(1, 2, 3, 4, 5, 8, 9) if len(args) <= 3 else (1, 2, 3, 5)] * len(args)):
            env = {a: Fraction(v) for a, v in zip(args, sizes)}
            for e in self.counters(loops, env):
                n += 1
                if n > limit:
                    return None
                try:
                    if not self.possible(self.g, e):
                        continue
                    if self.val(self.q, e) < 0:
                        return ', '.join('%s=%s' % (show(a), v) for a, v in e.items())
                except Unknown:
                    return None
        return None

    def counters(self, loops, env):
        if not loops:
            yield env
            return
        l = loops[0]
        try:
            t = int(self.val(self.F.trip(l), env))
        except Unknown:
            return
        for v in range(max(t, 0)):
            e = dict(env)
            e[self.F.loops[l].iv] = Fraction(v)
            yield from self.counters(loops[1:], e)
