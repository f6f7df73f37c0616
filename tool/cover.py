"""Cells behind a vertex's error bound: in a compressor on a regular grid, the bound of every vertex must be at most the bound derived from
every grid cell around it, each derived from that cell's own vertices.

The bound is a gated minimum in the source's symbolic form; its leaves are evaluations of a derivation function whose arguments are loads.
The rule evaluates the *places* of these loads and the index conditions of the leaves for a few grid sizes; data stays symbolic, and
conditions on data must not remove a cell (unless the bound is 0 there)."""
import itertools
from fractions import Fraction
from expr import *
from fn import Stop
import init
from init import Open
from bounds import Unknown

GRIDS2 = ((3, 4), (2, 2), (4, 3), (1, 3), (3, 1), (7, 6))
GRIDS3 = ((3, 2, 3), (2, 3, 2), (1, 2, 3), (3, 3, 1))


def bare(x):
    while x.k in ('fpext', 'fptrunc'):
        x = x.a[0]
    return x


def kuhn(n):
    """vertex chains of the simplices of the unit cell cut along its main diagonal"""
    out = []
    for p in itertools.permutations(range(n)):
        v = [0] * n
        ch = [tuple(v)]
        for k in p:
            v[k] = 1
            ch.append(tuple(v))
        out.append(ch)
    return out


def cells(dims, quad):
    """cells of the grid as sets of vertex numbers"""
    n = len(dims)
    shapes = [list(itertools.product((0, 1), repeat=n))] if quad else kuhn(n)
    out = []
    for o in itertools.product(*[range(d - 1) for d in dims]):
        for s in shapes:
            c = []
            for v in s:
                k = 0
                for d in range(n):
                    k = k * dims[d] + o[d] + v[d]
                c.append(k)
            out.append(frozenset(c))
    return out


class Cover:
    def __init__(self, mod, F, ef):
        self.F = F
        self.bl = init.Blocks(mod, F, ef)
        self.bl.n = 0
        self.wit = self.bl.wit
        sizes = [a for a in F.args if F.j['args'][a.a[1]]['ty'] == 'i64']
        self.dims = sizes
        self.quad = False
        self.open = False
        self.idle = 0
        self.others = ()
        self.unsure = 0
        self.bl.runs = 0

    def sinks(self):
        """(instruction, bound, address or None): bounds that are turned into codes, and stores into a bound array"""
        F, out, seen = self.F, [], set()
        for b in F.order:
            for i in F.blk[b]['ins']:
                if i['op'] != 'store':
                    continue
                try:
                    v = F.X(i['ops'][0])
                except Stop:
                    continue
                if not any(x.k == 'derive' for x in walk(v)):
                    continue
                if i.get('sty') == 'double' and not any(x.k == 'i2f' for x in walk(v)):
                    p = F.X(i['ops'][1])
                    o = F.base(p)
                    if o is not None and o.k == 'mem':
                        out.append((i, v, p))
                elif i.get('sty') == 'i32':
                    for l in walk(v):
                        if l.k == 'call' and l.a[0] in ('log2', 'log2f'):
                            for m in self.minima(l.a[-1]):
                                if (m, F.inner[i['b']]) not in seen:
                                    seen.add((m, F.inner[i['b']]))
                                    out.append((i, m, None))
        return out

    def derived(self, emit):
        """bound arrays filled from cells, and arrays computed from these element by element"""
        F, out = self.F, {}
        for i, x, a in self.sinks():
            if a is not None:
                out[F.base(a)] = i
        grown = bool(out)
        while grown:
            grown = False
            for b in F.order:
                for i in F.blk[b]['ins']:
                    if i['op'] != 'store' or i.get('sty') != 'double':
                        continue
                    try:
                        p, v = F.X(i['ops'][1]), F.X(i['ops'][0])
                    except Stop:
                        continue
                    o = F.base(p)
                    if o is None or o.k != 'mem' or o in out or any(y.k == 'i2f' for y in walk(v)):
                        continue
                    for y in walk(v):
                        s = F.base(y.a[0]) if y.k == 'ld' else None
                        if s in out:
                            out[o] = i
                            grown = True
                            off = psub(psub(y.a[0], s), psub(p, o))
                            if intval(off) is not None:
                                emit(i, intval(off) == 0, 'the bound of a value is that of the vertex %s bytes further' % show(off) if intval(off) else 'bound of the same vertex')
        return out

    def rests(self, e, g, arrays):
        """does a bound come from the cells around its vertex: True, False, or None"""
        res = True
        for v, h in parts(e):
            if B.And(g, h) == 0 or v.k == 'f' and v.a[0] == 0 or intval(v) == 0:
                continue
            r = False
            for y in walk(v):
                if y.k == 'derive' or y.k == 'ld' and self.F.base(y.a[0]) in arrays:
                    r = True
                    break
                if y.k in ('mu', 'exitval', 'callv', 'undef') or y.k == 'ld' and (self.F.base(y.a[0]) is None or self.F.base(y.a[0]).k != 'arg') and y.a[1] == 'double':
                    r = None
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def minima(self, e):
        """outermost choices (or single derivations) inside an expression"""
        if e.k in ('part', 'derive', 'max'):
            return [e] if any(y.k == 'derive' for y in walk(e)) else []
        r = []
        if e.k == 'call' and e.a[0] in ('log2', 'log2f'):
            return self.minima(e.a[-1])
        for x in e.a:
            if isinstance(x, E):
                r += self.minima(x)
        return r

    def cell(self, d, env):
        """(vertices of the cell, last vertex, [bases]) of a derivation"""
        ls = []
        for x in d.a[1:]:
            if not isinstance(x, E) or x.k in ('tuple', 'i', 'f', 'arg'):
                break
            x = bare(x)
            if x.k == 'part':
                x = [bare(v) for v, h in parts(x) if self.settle(h, env) == 1]
                x = x[0] if len(x) == 1 else None
            if x is None or x.k != 'ld':
                break
            ls.append(x)
        n = len(self.dims)
        if len(ls) % n or len(ls) < n * (n + 1):
            raise Unknown()
        m = len(ls) // n
        pos, bases = [], []
        for k in range(n):
            q, bs = [], set()
            for l in ls[k * m:(k + 1) * m]:
                o = self.F.base(l.a[0])
                if o is None:
                    raise Unknown()
                bs.add(o)
                e = dict(env)
                e[o] = Fraction(0)
                a = self.wit.val(l.a[0], e)
                w = 8 if l.a[1] == 'double' else 4
                if a.denominator != 1 or a % w:
                    raise Unknown()
                q.append(int(a) // w)
            pos.append(q)
            bases.append(bs)
        return pos, bases

    def check(self, emit, extra=()):
        F = self.F
        sinks = self.sinks()
        seen = {(x, F.inner[i['b']]) for i, x, a in sinks}
        for i, e in extra:
            for m in self.minima(e):
                if (m, F.inner[i['b']]) not in seen:
                    seen.add((m, F.inner[i['b']]))
                    sinks.append((i, m, None))
        if not sinks:
            return 0
        n = len(self.dims)
        grids = GRIDS2 if n == 2 else GRIDS3 if n == 3 else ()
        bools = [a for a in F.args if F.j['args'][a.a[1]]['ty'] in ('i1', 'i8')]
        done = {}
        for dims in grids:
            env0 = {a: Fraction(d) for a, d in zip(self.dims, dims)}
            env0.update({a: Fraction(0) for a in bools})
            self.bl.runs += 1
            env0['run'] = self.bl.runs
            env0['field'] = 2
            per = {}             # vertex -> {cell: guard} of bounds kept in an array
            for i, x, addr in sinks:
                key = (i['id'] if 'id' in i else id(i))
                r = self.one(i, x, addr, dims, env0, per, emit)
                if r is False:
                    return len(sinks)
                done[key] = done.get(key, 0) + (r or 0)
            if any(a is not None for _, _, a in sinks):
                want = cells(dims, self.quad)
                for c in want:
                    for v in c:
                        if per.get(v, {}).get(c) != 1 and not self.open:
                            i = [s[0] for s in sinks if s[2] is not None][0]
                            emit(i, False, 'on a %s grid the bound kept for vertex %s does not take the cell of vertices %s into account' % ('x'.join(map(str, dims)), self.show(v, dims), self.names(c, dims)))
                            return len(sinks)
                        done['array'] = done.get('array', 0) + 1
        for i, x, addr in sinks:
            k = 'array' if addr is not None else (i['id'] if 'id' in i else id(i))
            if done.get(k):
                emit(i, True, '%d vertices and cells' % done[k])
            else:
                emit(i, None, 'bound not followed')
        return len(sinks)

    def show(self, v, dims):
        c = []
        for d in reversed(dims):
            c.insert(0, v % d)
            v //= d
        return '(%s)' % ','.join(map(str, c))

    def names(self, c, dims):
        return ' '.join(self.show(v, dims) for v in sorted(c))

    def one(self, i, x, addr, dims, env0, per, emit):
        """number of (vertex, cell) pairs decided at a sink for one grid; False after a report"""
        F, bl = self.F, self.bl
        total = 1
        for d in dims:
            total *= d
        grid = 'on a %s grid ' % 'x'.join(map(str, dims))
        n = 0
        bl.n = 0
        self.open = False
        try:
            for env, g in bl.times(i, env0):
                g = self.settle(1 if g is None else g, env)
                if g == 0:
                    continue
                zero, have, cur = 0, {}, set()
                mode = x.k == 'part' and x.a[1]
                old = addr is None or x.k != 'part'
                for v, h in self.choices(x, env):
                    if v.k == 'f' and v.a[0] == 0 or intval(v) == 0:
                        zero = B.Or(zero, h)
                    elif v.k not in ('derive', 'max') and addr is None:
                        for a in B.support(h) | B.support(g):
                            if a.k == 'feq0' and a.a[0] is v:
                                zero = B.Or(zero, B.And(h, B.atom(a)))
                    elif v.k == 'derive':
                        if mode == 'ite' and h != g and any(y.k == 'derive' for t in B.support(h) for y in walk(t)):
                            raise Unknown()
                        pos, bases = self.cell(v, env)
                        for k, q in enumerate(pos):
                            if q != pos[0]:
                                emit(i, False, grid + 'a cell is derived from component 0 at vertices %s but component %d at %s' % (pos[0], k, q))
                                return False
                            if len(bases[k]) != 1 or any(bases[k] & bases[l] for l in range(k)):
                                emit(i, False, grid + 'a cell is derived from values of one component in place of another')
                                return False
                            if addr is None and next(iter(bases[k])).k == 'arg':
                                emit(i, False, grid + 'a cell is derived from the original values, not from the ones its coded vertices have now')
                                return False
                        self.quad = len(pos[0]) == 4 and len(dims) == 2
                        k = self.place(v, pos[0], dims)
                        if k:
                            emit(i, False, grid + 'a cell is judged by coordinates that are not those of its vertices %s: %s' % (self.names(pos[0], dims), k))
                            return False
                        c = frozenset(pos[0])
                        have[c] = B.Or(have.get(c, 0), h)
                        cur.add(pos[0][-1])
                    elif v.k == 'max' and any(y.k == 'derive' for y in walk(v)):
                        low = [y for y in (v.a[0] if isinstance(v.a[0], tuple) else v.a) if isinstance(y, E) and not any(z.k == 'derive' for z in walk(y))]
                        if not low or all(y.k == 'f' and y.a[0] <= 0 for y in low):
                            raise Unknown()
                        emit(i, False, grid + 'the bound is not below the one derived from the cells, but at least ' + show(low[0])[:80])
                        return False
                    elif addr is not None and v.k == 'ld' and v.a[0] is addr:
                        old = old or h == 1
                if addr is not None:
                    e = dict(env)
                    o = F.base(addr)
                    e[o] = Fraction(0)
                    at = int(self.wit.val(addr, e)) // 8
                    if mode != 'min' and not (x.k == 'derive'):
                        raise Unknown()
                    for c, h in have.items():
                        per.setdefault(at, {})[c] = B.Or(per.get(at, {}).get(c, 0), h)
                    n += 1
                    continue
                if len(cur) > 1:
                    emit(i, False, grid + 'the bound of one vertex is derived as the bound of different vertices (%s)' % ', '.join(self.show(v, dims) for v in sorted(cur)))
                    return False
                if not cur:
                    if total == 1 or B.And(g, B.Not(zero)) == 0 or not [c for c in cells(dims, self.quad)]:
                        continue
                    if all(v.k in ('f', 'arg') or intval(v) is not None for v, h in self.choices(x, env)):
                        emit(i, False, grid + 'a bound takes no cell into account (loop counters %s)' % ', '.join(sorted('%s=%s' % (show(k), v) for k, v in env.items() if isinstance(k, E) and k.k == 'iv')))
                        return False
                    self.idle += 1
                    continue
                v0 = cur.pop()
                if not 0 <= v0 < total:
                    continue
                for c in cells(dims, self.quad):
                    if v0 not in c:
                        continue
                    n += 1
                    miss = B.And(g, B.Not(B.Or(zero, have.get(c, 0))))
                    if miss:
                        emit(i, False, grid + 'the bound of vertex %s does not take the cell of vertices %s into account%s' % (self.show(v0, dims), self.names(c, dims), '' if have.get(c, 0) == 0 else ' under some conditions'))
                        return False
        except (Unknown, Open):
            self.open = True
            return None
        return n

    def place(self, d, pos, dims):
        """what is wrong with the coordinates (or the matrix of coordinate differences) a derivation is given"""
        if len(dims) != 2 or len(pos) != 3:
            return None
        rest = []
        for x in d.a[1:]:
            if isinstance(x, tuple):
                rest += x
            elif x.k == 'tuple':
                rest += x.a[0] if isinstance(x.a[0], tuple) else x.a
            elif x.k == 'f':
                rest.append(x)
        if len(rest) not in (4, 6) or not all(isinstance(x, E) and x.k == 'f' for x in rest):
            self.unplaced = True
            return None
        rest = [Fraction(x.a[0]) for x in rest]
        y, x = zip(*[divmod(p, dims[1]) for p in pos])
        det = (x[0] - x[2]) * (y[1] - y[2]) - (x[1] - x[2]) * (y[0] - y[2])
        if det == 0:
            return None
        if len(rest) == 6:
            want = [x[0] - x[2], x[1] - x[2], y[0] - y[2], y[1] - y[2]]
            got = [rest[0] - rest[2], rest[1] - rest[2], rest[3] - rest[5], rest[4] - rest[5]]
        else:
            want = [y[1] - y[2], y[2] - y[0], x[2] - x[1], x[0] - x[2]]
            got = rest
        self.placed = getattr(self, 'placed', 0) + 1
        if any(got[k] * want[l] != got[l] * want[k] for k in range(4) for l in range(k)) or not any(got):
            return '(%s) instead of a multiple of (%s)' % (', '.join(map(str, got)), ', '.join(map(str, want)))
        return None

    def choices(self, x, env, g=1):
        """(value, condition) of an expression's innermost choices"""
        for v, h in parts(x):
            h = self.settle(B.And(g, h), env)
            if h == 0:
                continue
            if v.k == 'part':
                yield from self.choices(v, env, h)
            else:
                yield v, h

    def settle(self, g, env):
        """a condition with what is known from sizes and counters filled in"""
        for a in B.support(g):
            if g <= 1:
                break
            try:
                v = 1 if self.wit.atom(a, env) else 0
            except Unknown:
                continue
            g = B.restrict(g, a, v)
        return g

    # ---------------------------------------------------------------- log-domain codecs: values that later cells are derived from
    def fresh(self, emit):
        """every logarithm that is kept is also written, as the value it stands for, to the copy that cells are derived from"""
        F = self.F
        judged = {}
        for i, x, addr in self.sinks():
            if addr is not None:
                continue
            for v, h in parts(x):
                if v.k == 'derive':
                    for y in v.a[1:]:
                        y = bare(y) if isinstance(y, E) else y
                        if isinstance(y, E) and y.k == 'ld':
                            judged.setdefault(F.base(y.a[0]), i)
        stores, origin = {}, {}
        for b in F.order:
            for i in F.blk[b]['ins']:
                try:
                    if i['op'] == 'store' and i.get('sty') in ('float', 'double'):
                        p, v = F.X(i['ops'][1]), F.X(i['ops'][0])
                        o = F.base(p)
                        if o is None or o.k != 'mem':
                            continue
                        ins = [F.base(y.a[0]) for y in walk(v) if y.k == 'ld']
                        logs = [y for y in walk(v) if y.k == 'call' and y.a[0] in ('log2', 'log2f') and bare(y.a[-1]) and any(z.k == 'ld' and F.base(z.a[0]) is not None and F.base(z.a[0]).k == 'arg' for z in walk(y.a[-1]))]
                        if logs and not any(y.k == 'derive' for y in walk(v)):
                            for z in walk(logs[0]):
                                if z.k == 'ld' and F.base(z.a[0]) is not None and F.base(z.a[0]).k == 'arg':
                                    origin[o] = ('log', F.base(z.a[0]))
                            continue
                        stores.setdefault(o, []).append((i, b, p, v))
                    elif i['op'] in ('call', 'invoke') and (i.get('callee') or '').startswith(('llvm.memcpy', 'memcpy', 'llvm.memmove')):
                        d, s = F.base(F.X(i['ops'][0])), F.base(F.X(i['ops'][1]))
                        if d is not None and s is not None and s.k == 'arg':
                            origin.setdefault(d, ('copy', s))
                except (Stop, KeyError, TypeError):
                    continue
        logs = {o: a for o, (k, a) in origin.items() if k == 'log'}
        copies = {a: o for o, (k, a) in origin.items() if k == 'copy' and o in judged}
        n = 0
        if not judged:
            return 0
        self.others = set(copies.values())
        for l, a in logs.items():
            if a not in copies:
                continue
            o = copies[a]
            for i, b, p, X in stores.get(l, ()):
                if not any(y.k == 'derive' for y in walk(X)) and intval(X) is None and X.k == 'f':
                    continue
                idx = psub(p, l)
                g = self.bl.bd.guard(b)
                hit = [(j, V) for j, c, q, V in stores.get(o, ()) if psub(q, o) is idx and (c == b or B.implies(g, self.bl.bd.guard(c)))]
                n += 1
                if not hit:
                    emit(i, False, 'the logarithm kept for %s is not written back to the values of %s that the bounds of later vertices are derived from' % (show(idx)[:80], show(a)))
                    continue
                j, V = hit[-1]
                r = self.image(V, X, o, a, idx, g)
                emit(j, r is None, r or 'value of the kept logarithm')
        return n

    def image(self, V, X, o, a, idx, g):
        """None if V is sign * 2^X, with the sign of the element it replaces"""
        F = self.F
        for v, h in parts(V):
            neg = False
            w = bare(v)
            if w.k == 'fneg':
                neg, w = True, bare(w.a[0])
            if w.k != 'call' or w.a[0] not in ('exp2', 'exp2f'):
                return 'a later bound is derived from %s, not from 2 to the logarithm that is kept' % show(v)[:200]
            if not self.same(w.a[-1], X, B.And(g, h)):
                return 'a later bound is derived from 2^(%s), but the logarithm that is kept is %s' % (show(w.a[-1])[:200], show(X)[:200])
            ok = False
            for t in B.support(h):
                if t.k != 'flt':
                    continue
                for pos in (0, 1):
                    z, y = t.a[pos], bare(t.a[1 - pos])
                    if z.k == 'f' and z.a[0] == 0 and y.k == 'ld' and F.base(y.a[0]) is not None:
                        s = F.base(y.a[0])
                        if s in (o, a) and psub(y.a[0], s) is idx:
                            # pos 0: 0 < y
                            want = 1 if (pos == 0) != neg else 0
                            if B.restrict(h, t, 1 - want) == 0:
                                ok = True
                            elif B.restrict(h, t, want) == 0 and pos == 0:
                                return 'the sign of the value that later bounds are derived from is turned round'
                        elif s.k in ('mem', 'arg') and (s in self.others or s.k == 'arg'):
                            if B.restrict(h, t, 0) == 0 or B.restrict(h, t, 1) == 0:
                                return 'the sign of the value that later bounds are derived from is that of %s' % show(y)[:120]
            if not ok:
                own = False
                for t in B.support(h):
                    if t.k == 'flt' and any(self.power(z) for z in t.a):
                        continue
                    for y in walk(t):
                        if y.k == 'ld':
                            s = F.base(y.a[0])
                            own = own or s is None or s.k not in ('mem', 'arg') or s in (o, a) and psub(y.a[0], s) is idx or s not in self.others and s not in (o, a)
                        elif y.k in ('mu', 'exitval', 'callv', 'undef'):
                            own = True
                if not own:
                    return 'the sign of the value that later bounds are derived from does not come from the value it replaces'
                self.unsure += 1
        return None

    def power(self, x):
        x = bare(x)
        x = bare(x.a[0]) if x.k == 'fneg' else x
        return x.k == 'call' and x.a[0] in ('exp2', 'exp2f')

    def same(self, x, y, g):
        x, y = bare(x), bare(y)
        if x is y:
            return True
        for v, h in parts(x):
            for w, k in parts(y):
                if bare(v) is not bare(w) and B.And(g, h, k) != 0:
                    return False
        return True

    # ---------------------------------------------------------------- codecs that keep the cells of critical points as they are
    def bits(self):
        """[(instruction, index, value or None)] of accesses to bit vectors"""
        F, out = self.F, []
        for b in F.order:
            at = None
            for i in F.blk[b]['ins']:
                if i['op'] not in ('call', 'invoke'):
                    continue
                f = i.get('callee') or ''
                if f.startswith('_ZNSt6vectorIbSaIbEEixEm') or f.startswith('_ZNKSt6vectorIbSaIbEEixEm'):
                    at = F.X(i['ops'][-1]) if len(i['ops']) >= 2 else None
                elif f.startswith('_ZNSt14_Bit_referenceaSEb') and at is not None:
                    out.append((i, at, F.X(i['ops'][1])))
                    at = None
                elif f.startswith('_ZNKSt14_Bit_referencecvbEv') and at is not None:
                    out.append((i, at, None))
                    at = None
        return out

    def exist(self, emit):
        """no vertex of a cell marked as holding a critical point is kept as a reconstruction"""
        F = self.F
        acc = self.bits()
        W = [(i, x, v) for i, x, v in acc if v is not None]
        R = [(i, x, F.C(['v', i['id']])) for i, x, v in acc if v is None]
        if not W or not R:
            return 0
        n = len(self.dims)
        grids = (GRIDS2 if n == 2 else GRIDS3)
        bools = [a for a in F.args if F.j['args'][a.a[1]]['ty'] in ('i1', 'i8')]
        kept = []
        for b in F.order:
            if F.inner[b] < 0:
                continue
            for i in F.blk[b]['ins']:
                if i['op'] == 'store' and i.get('sty') in ('float', 'double'):
                    p, v = F.X(i['ops'][1]), F.X(i['ops'][0])
                    o = F.base(p)
                    if o is not None and o.k == 'mem' and any(y.k in ('fadd', 'fmul', 'fptrunc', 'exitval') for y in walk(v)) and any(F.inner[r['b']] == F.inner[b] or self.inside(F.inner[r['b']], F.inner[b]) for r, x, c in R):
                        kept.append((i, b, p, o))
        done = {}
        for dims in grids:
            env0 = {a: Fraction(d) for a, d in zip(self.dims, dims)}
            env0.update({a: Fraction(0) for a in bools})
            self.bl.runs += 1
            env0['run'] = self.bl.runs
            env0['field'] = 2
            grid = 'on a %s grid ' % 'x'.join(map(str, dims))
            table = {}
            try:
                for i, x, v in W:
                    for env, g in self.bl.times(i, env0):
                        c = self.vertices(v, env)
                        k = int(self.wit.val(x, env)) % 2**64
                        if c in table and table[c] != k or c not in table and k in table.values():
                            emit(i, False, grid + 'mark %d stands for the cell of vertices %s, but so does another mark, or it stands for another cell too' % (k, self.names(c, dims)))
                            return 1
                        table[c] = k
                        if c not in cells(dims, False):
                            emit(i, False, grid + 'mark %d is computed from vertices %s, which are not a cell' % (k, self.names(c, dims)))
                            return 1
                for c in cells(dims, False):
                    if c not in table:
                        emit(W[0][0], False, grid + 'the cell of vertices %s is not looked at for critical points' % self.names(c, dims))
                        return 1
            except (Unknown, Open):
                emit(W[0][0], None, 'marks of critical points not followed')
                return 1
            done['marks'] = done.get('marks', 0) + len(table)
            for i, b, p, o in kept:
                try:
                    for env, g in self.bl.times(i, env0):
                        g = self.settle(B.And(1 if g is None else g, self.bl.bd.guard(b)), env)
                        if g == 0:
                            continue
                        e = dict(env)
                        e[o] = Fraction(0)
                        v0 = int(self.wit.val(p, e)) // (8 if i['sty'] == 'double' else 4)
                        zero = self.zeros(g, env)
                        have = {}
                        for r, x, c in R:
                            try:
                                h = self.settle(self.bl.bd.guard(r['b']), env)
                            except Unknown:
                                continue
                            if h == 0:
                                continue
                            k = int(self.wit.val(x, env)) % 2**64
                            have[k] = B.Or(have.get(k, 0), c)
                        for c in cells(dims, False):
                            if v0 not in c:
                                continue
                            bad = B.And(g, B.Not(zero))
                            k = table[c]
                            done[id(i)] = done.get(id(i), 0) + 1
                            if k not in have:
                                emit(i, False, grid + 'a reconstruction is kept for vertex %s without a look at the mark of the cell of vertices %s' % (self.show(v0, dims), self.names(c, dims)))
                                return 1
                            if B.And(bad, have[k]):
                                emit(i, False, grid + 'a reconstruction is kept for vertex %s although the cell of vertices %s is marked as holding a critical point' % (self.show(v0, dims), self.names(c, dims)))
                                return 1
                except (Unknown, Open):
                    done[id(i)] = None
                    continue
        emit(W[0][0], True, '%d marks' % done['marks'])
        for i, b, p, o in kept:
            emit(i, True if done.get(id(i)) else None, 'cells of critical points are left alone')
        return 1 + len(kept)

    def inside(self, L, M):
        """is loop L within loop M"""
        while L >= 0:
            if L == M:
                return True
            L = self.F.loops[L].parent
        return False

    def zeros(self, g, env):
        """conditions under which a path that asks for a positive bound is not taken, because the bound is 0"""
        z = 0
        for a in B.support(g):
            x = a.a[0] if a.k == 'feq0' else a.a[1] if a.k == 'flt' and a.a[0].k == 'f' and a.a[0].a[0] >= 0 else None
            if x is None or x.k != 'part':
                continue
            lo = B.restrict(g, a, 0 if a.k == 'feq0' else 1)
            if B.restrict(g, a, 1 if a.k == 'feq0' else 0) != 0:
                continue
            for v, h in self.choices(x, env):
                if v.k == 'f' and v.a[0] == 0 or intval(v) == 0:
                    z = B.Or(z, h)
                elif v.k == 'arg':
                    for t in B.support(h):
                        if t.k == 'feq0' and t.a[0] is v:
                            z = B.Or(z, B.And(h, B.atom(t)))
        return z

    def vertices(self, v, env):
        """vertices whose values of every component a mark is computed from"""
        by = {}
        for y in walk(v, None, True) if isinstance(v, E) else ():
            if y.k == 'ld':
                o = self.F.base(y.a[0])
                if o is None or o.k != 'arg':
                    raise Unknown()
                e = dict(env)
                e[o] = Fraction(0)
                by.setdefault(o, set()).add(int(self.wit.val(y.a[0], e)) // (8 if y.a[1] == 'double' else 4))
        if not by or len({frozenset(s) for s in by.values()}) != 1 or len(by) != len(self.dims):
            raise Unknown()
        return frozenset(next(iter(by.values())))
