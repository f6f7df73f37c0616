"""Canonical expressions: hash-consed terms, integer polynomials, path conditions as BDDs, and values gated by conditions.

Assumptions built into the normal form (stated in every evidence file):
 * integer index arithmetic does not wrap (integer casts of at least 32 bits are transparent);
 * field values are finite, so !(a >= b) and a < b are the same condition.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)


class E:
    __slots__ = ('k', 'a', 'id')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}


def mk(k, *a):
    key = (k,) + a
    e = _tab.get(key)
    if e is None:
        e = E()
        e.k = k
        e.a = a
        e.id = len(_tab)
        _tab[key] = e
    return e


# ---------------------------------------------------------------- BDD
class Bdd:
    """Reduced ordered BDD over condition atoms; nodes are ints, 0 = false, 1 = true."""

    def __init__(self):
        self.nodes = [None, None]
        self.uniq = {}
        self.var = {}
        self.atoms = []
        self.memo = {}

    def atom(self, e):
        v = self.var.get(e)
        if v is None:
            v = self.var[e] = len(self.atoms)
            self.atoms.append(e)
        return self.node(v, 0, 1)

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in k if x > 1)

        def co(x, b):
            if x <= 1 or self.nodes[x][0] != v:
                return x
            return self.nodes[x][1 + b]
        r = self.node(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def And(self, *xs):
        r = 1
        for x in xs:
            r = self.ite(r, x, 0)
        return r

    def Or(self, *xs):
        r = 0
        for x in xs:
            r = self.ite(r, 1, x)
        return r

    def Not(self, x):
        return self.ite(x, 0, 1)

    def implies(self, a, b):
        return self.ite(a, self.Not(b), 0) == 0

    def support(self, f, seen=None):
        out, st, seen = set(), [f], set()
        while st:
            n = st.pop()
            if n <= 1 or n in seen:
                continue
            seen.add(n)
            v, lo, hi = self.nodes[n]
            out.add(self.atoms[v])
            st += [lo, hi]
        return out

    def map(self, f, fn, memo):
        """rebuild f with every atom a replaced by the condition fn(a)"""
        if f <= 1:
            return f
        if f in memo:
            return memo[f]
        v, lo, hi = self.nodes[f]
        r = self.ite(fn(self.atoms[v]), self.map(hi, fn, memo), self.map(lo, fn, memo))
        memo[f] = r
        return r

    def restrict(self, f, atom, val):
        """cofactor of f with the atom fixed"""
        v = self.var.get(atom)
        if v is None:
            return f
        memo = {}

        def go(x):
            if x <= 1 or self.nodes[x][0] > v:
                return x
            if x in memo:
                return memo[x]
            w, lo, hi = self.nodes[x]
            r = (hi if val else lo) if w == v else self.node(w, go(lo), go(hi))
            memo[x] = r
            return r
        return go(f)

    def constrain(self, f, c):
        """f simplified where c is false (generalised cofactor): agrees with f wherever c holds"""
        if c in (0, 1) or f in (0, 1):
            return f
        if f == c:
            return 1
        k = ('c', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[f][0], self.nodes[c][0])

        def co(x, b):
            return x if self.nodes[x][0] != v else self.nodes[x][1 + b]
        c0, c1 = co(c, 0), co(c, 1)
        if c0 == 0:
            r = self.constrain(co(f, 1), c1)
        elif c1 == 0:
            r = self.constrain(co(f, 0), c0)
        elif self.nodes[f][0] != v:
            # f does not depend on v: forget v in the care set
            r = self.constrain(f, self.Or(c0, c1))
        else:
            r = self.node(v, self.constrain(co(f, 0), c0), self.constrain(co(f, 1), c1))
        self.memo[k] = r
        return r

    def exists(self, f, atom):
        return self.Or(self.restrict(f, atom, 0), self.restrict(f, atom, 1))

    def show(self, f, limit=8, d=0):
        if f == 1:
            return 'true'
        if f == 0:
            return 'false'
        paths = []

        def go(n, p):
            if len(paths) > limit:
                return
            if n == 1:
                paths.append(' & '.join(p))
            elif n:
                v, lo, hi = self.nodes[n]
                a = show(self.atoms[v], d)
                go(hi, p + [a])
                go(lo, p + ['!' + a])
        go(f, [])
        s = ' | '.join(paths[:limit])
        return s + (' | ...' if len(paths) > limit else '')


B = Bdd()


# ---------------------------------------------------------------- integers and pointers
def I(n):
    return mk('poly', (((), Fraction(n)),)) if n else mk('poly', ())


def is_int(e):
    return e.k == 'poly' and (not e.a[0] or (len(e.a[0]) == 1 and e.a[0][0][0] == ()))


def intval(e):
    if not is_int(e):
        return None
    return e.a[0][0][1] if e.a[0] else Fraction(0)


def pmap(e):
    """polynomial as {monomial: coefficient}; a monomial is a sorted tuple of atoms"""
    if e.k == 'poly':
        return dict(e.a[0])
    return {(e,): Fraction(1)}


def frompmap(m):
    m = {k: v for k, v in m.items() if v}
    if len(m) == 1:
        (k, v), = m.items()
        if len(k) == 1 and v == 1:
            return k[0]
    return mk('poly', tuple(sorted(m.items(), key=lambda t: tuple(x.id for x in t[0]))))


def padd(*es):
    m = {}
    for e in es:
        for k, v in pmap(e).items():
            m[k] = m.get(k, 0) + v
    return frompmap(m)


def pscale(e, c):
    return frompmap({k: v * c for k, v in pmap(e).items()})


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    m = {}
    for k1, v1 in pmap(a).items():
        for k2, v2 in pmap(b).items():
            k = tuple(sorted(k1 + k2))
            m[k] = m.get(k, 0) + v1 * v2
    return frompmap(m)


def patoms(e):
    return {x for k in pmap(e) for x in k}


# ---------------------------------------------------------------- gated values
def parts(e):
    """[(leaf, guard)] of a value"""
    if e.k == 'part':
        return list(e.a[0])
    return [(e, 1)]


def is_disjoint(e):
    return e.k != 'part' or e.a[1] == 'ite'


def mkpart(items, mode='ite'):
    """value chosen by guards; mode 'ite': guards are disjoint; 'min': the least of the leaves whose guard holds"""
    m = {}
    for v, g in items:
        if g == 0:
            continue
        if v.k == 'part' and (v.a[1] == 'ite' or mode == 'min' or True):
            if v.a[1] == 'min':
                mode = 'min'
            for w, h in v.a[0]:
                gh = B.And(g, h)
                if gh:
                    m[w] = B.Or(m.get(w, 0), gh)
        else:
            m[v] = B.Or(m.get(v, 0), g)
    m = {k: v for k, v in m.items() if v}
    if not m:
        return mk('undef')
    if len(m) == 1:
        return next(iter(m))
    defined = {k: v for k, v in m.items() if k.k != 'undef'}
    if len(defined) == 1 and mode == 'ite':
        return next(iter(defined))
    return mk('part', tuple(sorted(m.items(), key=lambda t: t[0].id)), mode)


def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a is b:
        return a
    # ite(n == 0, x, y) where y at n = 0 is x
    if c > 1:
        v, lo, hi = B.nodes[c]
        at = B.atoms[v]
        if lo in (0, 1) and hi in (0, 1) and at.k == 'flt':
            x, y = at.a
            t, f = (a, b) if hi == 1 else (b, a)       # t when x < y
            tt, ff = unext(t), unext(f)
            for x, y in ((x, y), (fneg(y), fneg(x))):
                if tt is x and ff is y:
                    return mkmin(t, f)
                if tt is y and ff is x:
                    return mkmax(t, f)
            # p + max(v, 0) written as a conditional addition
            for w, p, pol in ((a, b, c), (b, a, B.Not(c))):
                if w.k == 'fadd' and p in w.a and p.k != 'f':
                    v = w.a[1] if w.a[0] is p else w.a[0]
                    r = ite(pol, v, mk('f', 0.0))
                    if r.k == 'max' or r.k == 'part' and r.a[1] == 'min':
                        return fadd(p, r)
        for m in B.support(c) if min_like(a) and min_like(b) else ():
            if m.k == 'flt' and (m.a[0] is a and m.a[1] is b or m.a[0] is b and m.a[1] is a):
                # c is  g & (a < b)  or  g & !(b < a): the least of b and (where g) a
                on, off = B.restrict(c, m, 1), B.restrict(c, m, 0)
                if m.a[0] is b:
                    on, off = off, on
                if off == 0:
                    return mkpart([(b, 1), (a, on)], 'min')
                if on == 1:
                    return mkpart([(a, 1), (b, B.Not(off))], 'min')
        if lo in (0, 1) and hi in (0, 1) and at.k == 'eq0':
            z, nz = (a, b) if hi == 1 else (b, a)
            if nz.k != 'part':
                for x, r in zero_sub(at.a[0]):
                    if subst(nz, {x: r}) is z:
                        return nz
    return mkpart([(a, c), (b, B.Not(c))])


def unext(v):
    if v.k == 'fpext':
        return v.a[0]
    if v.k == 'fneg' and v.a[0].k == 'fpext':
        return fneg(v.a[0].a[0])
    return v


def min_like(x):
    return x.k != 'part' or x.a[1] == 'min'


def zero_sub(p):
    """(atom, value): p = 0 solved for one of its linear atoms"""
    m = pmap(p)
    for k, c in m.items():
        if len(k) == 1 and not any(k[0] in q for q in m if q != k):
            yield k[0], padd(k[0], pscale(p, -1 / c))


def mkmax(a, b):
    xs = set()
    for x in (a, b):
        xs |= set(x.a[0]) if x.k == 'max' else {x}
    return mk('max', tuple(sorted(xs)))


def mkmin(a, b):
    return mkpart([(a, 1), (b, 1)], 'min')


# ---------------------------------------------------------------- floating point
def F(s):
    return mk('f', float(s) + 0.0)


def fneg(a):
    if a.k == 'f':
        return mk('f', -a.a[0] + 0.0)
    if a.k == 'fneg':
        return a.a[0]
    if a.k == 'fadd':
        return fadd(fneg(a.a[0]), fneg(a.a[1]))
    return mk('fneg', a)


def fadd(a, b):
    if a.k == 'f' and b.k == 'f':
        return mk('f', a.a[0] + b.a[0])
    if a.k == 'f' and a.a[0] == 0:
        return b
    if b.k == 'f' and b.a[0] == 0:
        return a
    return mk('fadd', *sorted((a, b)))


def fmul(a, b):
    if a.k == 'f' and b.k == 'f':
        return mk('f', a.a[0] * b.a[0])
    s = 0
    if a.k == 'fneg':
        a, s = a.a[0], s ^ 1
    if b.k == 'fneg':
        b, s = b.a[0], s ^ 1
    if a.k == 'f' and a.a[0] < 0:
        a, s = mk('f', -a.a[0]), s ^ 1
    if b.k == 'f' and b.a[0] < 0:
        b, s = mk('f', -b.a[0]), s ^ 1
    if a.k == 'f' and a.a[0] == 1:
        r = b
    elif b.k == 'f' and b.a[0] == 1:
        r = a
    else:
        r = mk('fmul', *sorted((a, b)))
    return fneg(r) if s else r


def mathcall(f, ty, *args):
    """a pure math routine; exact cases of constants are evaluated"""
    import math
    if f == 'log2' and args[0].k == 'f' and args[0].a[0] > 0:
        m, ex = math.frexp(args[0].a[0])
        if m == 0.5:
            return mk('f', float(ex - 1))
    if f == 'pow' and args[1].k == 'f' and args[1].a[0] == 0:
        return mk('f', 1.0)
    if f == 'exp2' and args[0].k == 'f' and args[0].a[0] == int(args[0].a[0]) and abs(args[0].a[0]) < 120:
        return mk('f', 2.0 ** args[0].a[0])
    return mk('call', f, ty, *args)


def f2i(a):
    if a.k == 'f' and abs(a.a[0]) < 2 ** 31:
        return I(int(a.a[0]))
    return mk('f2i', a)


def fdiv(a, b):
    if b.k == 'f' and b.a[0] != 0:
        import math
        m, _ = math.frexp(abs(b.a[0]))
        if m == 0.5:
            return fmul(a, mk('f', 1.0 / b.a[0]))
        if a.k == 'f':
            return mk('f', a.a[0] / b.a[0])
    s = 0
    if a.k == 'fneg':
        a, s = a.a[0], s ^ 1
    if b.k == 'fneg':
        b, s = b.a[0], s ^ 1
    r = mk('fdiv', a, b)
    return fneg(r) if s else r


def fabs_(a):
    if a.k == 'f':
        return mk('f', abs(a.a[0]))
    if a.k == 'fneg':
        return fabs_(a.a[0])
    if a.k == 'fabs':
        return a
    if a.k == 'fadd':
        n = fneg(a)
        if n.id < a.id:
            a = n
    if a.k in ('fmul', 'fdiv'):
        pass
    return mk('fabs', a)


def fext(a, ty):
    if a.k == 'f':
        return a
    if a.k == 'fneg':
        return fneg(fext(a.a[0], ty))
    if a.k == 'fabs':
        return fabs_(fext(a.a[0], ty))
    if a.k == 'part':
        return mkpart([(fext(v, ty), g) for v, g in a.a[0]], a.a[1])
    return mk('fpext', a)


def ftrunc(a, ty):
    if a.k == 'fpext':
        return a.a[0]
    if a.k == 'fneg':
        return fneg(ftrunc(a.a[0], ty))
    if a.k == 'fabs':
        return fabs_(ftrunc(a.a[0], ty))
    if a.k == 'f':
        import struct
        try:
            return mk('f', struct.unpack('f', struct.pack('f', a.a[0]))[0])
        except OverflowError:
            return mk('fptrunc', a)
    if a.k == 'part':
        return mkpart([(ftrunc(v, ty), g) for v, g in a.a[0]], a.a[1])
    return mk('fptrunc', a)


def i2f(a, ty):
    v = intval(a)
    if v is not None:
        return mk('f', float(v))
    # the sign comes out
    m = pmap(a)
    if m and all(c < 0 for c in m.values()):
        return fneg(i2f(pscale(a, -1), ty))
    return mk('i2f', a, ty)


# ---------------------------------------------------------------- conditions
_nonneg = set()        # atoms known to be >= 0


def assume_nonneg(e):
    if e not in _nonneg:
        _nonneg.add(e)
        fresh()


_nf = {}               # results of nonneg_facts under the facts known so far
epoch = [0]


def fresh():
    """a new fact: results so far are forgotten"""
    _nf.clear()
    epoch[0] += 1


_pos = set()           # atoms known to be >= 1


def assume_fact1(e):
    if e not in _pos:
        _pos.add(e)
        fresh()


_facts = {}            # atom -> polynomials known to be >= 0 that mention it


def assume_fact(p):
    if p.k == 'poly':
        for x in patoms(p):
            if p not in _facts.setdefault(x, []):
                _facts[x].append(p)
                fresh()


def nonneg_facts(p, depth=2):
    """p >= 0 from the facts: p = fact + (something >= 0)"""
    key = (p, depth)
    r = _nf.get(key)
    if r is None:
        r = _nf[key] = nonneg_facts_(p, depth)
    return r


def nonneg_facts_(p, depth):
    if nonneg(p):
        return True
    if depth == 0 or p.k == 'part':
        return False
    for m, c in pmap(p).items():
        if len(m) == 1 and m[0].k == 'mn0':              # min(0, q)
            r = padd(p, pscale(m[0], -c))
            return nonneg_facts(r, depth) and (c < 0 or nonneg_facts(padd(r, pscale(m[0].a[0], c)), depth))
    for m, c in pmap(p).items():
        if c < 0 and m:
            for x in m:
                for f in _facts.get(x, ()):
                    fc = pmap(f).get(m)
                    if fc is not None and fc < 0 and nonneg_facts(padd(p, pscale(f, -(c / fc))), depth - 1):
                        return True
    return False


def positive(p):
    """p >= 1"""
    if p.k == 'part':
        return all(positive(v) for v, _ in p.a[0])
    return nonneg(padd(p, I(-1)))


def nonneg(e):
    """sound: sum of products of non-negative atoms with non-negative coefficients"""
    if e.k == 'part':
        return all(nonneg(v) for v, _ in e.a[0])
    m = pmap(e)
    if all(c >= 0 for c in m.values()):
        return all(nonneg_atom(x) for k in m for x in k)
    if len(m) > 12 or any(len(k) > 4 for k in m) or not any(x in _pos for k in m for x in k) or not all(nonneg_atom(x) for k in m for x in k):
        return False
    # atoms known to be >= 1 are 1 + something >= 0
    out = {}
    for k, c in m.items():
        terms = [()]
        for x in k:
            terms = [t + (x,) for t in terms] + (terms if x in _pos else [])
        for t in terms:
            t = tuple(sorted(t, key=lambda x: x.id))
            out[t] = out.get(t, 0) + c
    return all(c >= 0 for c in out.values())


def nonneg_atom(x):
    if x in _nonneg or x.k in ('iv', 'vecbytes', 'trip'):
        return True
    if x.k == 'ld' and x.a[1] in ('i8u',):
        return True
    if x.k in ('udiv', 'sdiv', 'lshr'):
        return all(nonneg_facts(y, 1) for y in x.a if isinstance(y, E))
    if x.k == 'part':
        return all(nonneg(v) for v, _ in x.a[0])
    if x.k in ('b2i', 'umax', 'umin'):
        return True
    return False


def lt0(p):
    """condition p < 0 (integers)"""
    if p.k == 'part' and p.a[1] == 'ite':
        return B.Or(*[B.And(g, lt0(v)) for v, g in p.a[0]])
    v = intval(p)
    if v is not None:
        return 1 if v < 0 else 0
    if nonneg_facts(p):
        return 0
    if positive(pscale(p, -1)):
        return 1
    m = dict(pmap(p))
    c = m.pop((), Fraction(0))
    q = frompmap(m)
    if nonneg(q) and c < 0 and all(x.denominator == 1 for x in m.values()):
        if c == -1 and len(m) == 1:              # q - 1 < 0 and q >= 0  <=>  q == 0
            return eq0(q)
    # normal form: leading coefficient positive, using  -q + c < 0  <=>  !(q - c - 1 < 0)  ... q > c <=> !(q <= c) <=> !(q - c - 1 < 0)
    lead = next(iter(sorted(m.items(), key=lambda t: tuple(x.id for x in t[0]))))[1]
    if lead < 0:
        # p < 0  <=>  !( -p - 1 < 0 )   since  -p <= 0 <=> -p - 1 < 0
        r = padd(pscale(p, -1), I(-1))
        mm = dict(pmap(r))
        return B.Not(lt0(r)) if not nonneg_facts(r) else 1
    # divide by the gcd of the non-constant coefficients where exact
    return B.atom(mk('lt0', p))


def eq0(p):
    if p.k == 'part' and p.a[1] == 'ite':
        return B.Or(*[B.And(g, eq0(v)) for v, g in p.a[0]])
    v = intval(p)
    if v is not None:
        return 1 if v == 0 else 0
    m = dict(pmap(p))
    c = m.get((), Fraction(0))
    if positive(p) or positive(pscale(p, -1)):
        return 0
    if nonneg_facts(padd(p, I(-1))):
        return 0
    lead = next(iter(sorted(((k, v) for k, v in m.items() if k), key=lambda t: tuple(x.id for x in t[0]))))[1]
    p = pscale(p, 1 / lead)
    if p.k == 'b2i':
        return B.Not(p.a[0])
    return B.atom(mk('eq0', p))


def dist(a):
    return a.k == 'part' and a.a[1] == 'ite' and len(a.a[0]) <= 12


def icmp(pred, a, b):
    if dist(a):
        return B.Or(*[B.And(g, icmp(pred, v, b)) for v, g in a.a[0]])
    if dist(b):
        return B.Or(*[B.And(g, icmp(pred, a, v)) for v, g in b.a[0]])
    if 'undef' in (a.k, b.k):
        return B.atom(mk('undefcmp', a, b))
    d = psub(a, b)
    if pred == 'eq':
        return eq0(d)
    if pred == 'ne':
        return B.Not(eq0(d))
    if pred[0] == 'u' and pred != 'une':
        # unsigned order on values that may be negative: a negative value is larger than any size
        if pred == 'ult':
            return B.And(B.Not(lt0(a)), lt0(d))
        if pred == 'uge':
            return B.Not(icmp('ult', a, b))
        if pred == 'ugt':
            return icmp('ult', b, a)
        if pred == 'ule':
            return B.Not(icmp('ult', b, a))
    if pred == 'slt':
        return lt0(d)
    if pred == 'sge':
        return B.Not(lt0(d))
    if pred == 'sgt':
        return lt0(psub(b, a))
    if pred == 'sle':
        return B.Not(lt0(psub(b, a)))
    raise ValueError(pred)


def fcmp(pred, a, b):
    if dist(a) and len(a.a[0]) <= 4:
        return B.Or(*[B.And(g, fcmp(pred, v, b)) for v, g in a.a[0]])
    if dist(b) and len(b.a[0]) <= 4:
        return B.Or(*[B.And(g, fcmp(pred, a, v)) for v, g in b.a[0]])
    if a.k == 'f' and b.k == 'f':
        x, y = a.a[0], b.a[0]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}.get(pred[1:], False))
    p = pred[1:]
    if pred in ('ord', 'uno'):
        return 1 if pred == 'ord' else 0
    if p == 'eq' or p == 'ne':
        # |x| == 0 is x == 0; x == -y ...
        for u, w in ((a, b), (b, a)):
            if w.k == 'f' and w.a[0] == 0:
                while u.k in ('fabs', 'fneg', 'fpext'):
                    u = u.a[0]
                r = B.atom(mk('feq0', u))
                return r if p == 'eq' else B.Not(r)
        na, nb = fneg(a), fneg(b)
        r = B.atom(mk('feq', *min(tuple(sorted((a, b))), tuple(sorted((na, nb))))))
        return r if p == 'eq' else B.Not(r)
    if p == 'lt':
        return flt(a, b)
    if p == 'gt':
        return flt(b, a)
    if p == 'le':
        return B.Not(flt(b, a))
    if p == 'ge':
        return B.Not(flt(a, b))
    if pred in ('true', 'false'):
        return int(pred == 'true')
    raise ValueError(pred)


def flt(a, b):
    # signs: -a < -b  <=>  b < a
    if a.k == 'fneg' and b.k == 'fneg':
        a, b = b.a[0], a.a[0]
    if a.k == 'f' and a.a[0] == 0 and b.k == 'fneg':
        return flt(b.a[0], a)
    if b.k == 'f' and b.a[0] == 0 and a.k == 'fneg':
        return flt(b, a.a[0])
    if a.k == 'fneg' and b.k == 'f':
        return flt(fneg(b), a.a[0])
    if b.k == 'fneg' and a.k == 'f':
        return flt(b.a[0], fneg(a))
    # exact casts on both sides
    if a.k == 'fpext' and b.k == 'fpext':
        a, b = a.a[0], b.a[0]
    if a.k == 'fpext' and b.k == 'f' and b.a[0] == 0:
        a = a.a[0]
    if b.k == 'fpext' and a.k == 'f' and a.a[0] == 0:
        b = b.a[0]
    if b.k == 'fabs' and a.k == 'f' and a.a[0] == 0:
        return B.Not(fcmp('oeq', b, a))
    if a.k == 'fabs' and b.k == 'f' and b.a[0] == 0:
        return 0
    if a is b:
        return 0
    # x < 0 and 0 < x share the atom x == 0 only through their conjunction; keep both as atoms
    return B.atom(mk('flt', a, b))


# ---------------------------------------------------------------- rebuilding
MATH = {'log2', 'exp2', 'pow'}
CMP = {}


def rebuild(e, args):
    k = e.k
    if k == 'fadd':
        return fadd(*args)
    if k == 'fmul':
        return fmul(*args)
    if k == 'fdiv':
        return fdiv(*args)
    if k == 'f2i':
        return f2i(*args)
    if k == 'call' and len(args) >= 3 and args[0] in MATH:
        return mathcall(*args)
    if k == 'fneg':
        return fneg(*args)
    if k == 'fabs':
        return fabs_(*args)
    if k == 'fpext':
        return fext(args[0], None)
    if k == 'fptrunc':
        return ftrunc(args[0], None)
    if k == 'i2f':
        return i2f(args[0], args[1])
    if k in ('and', 'or', 'xor'):
        return bits(k, *args)
    return mk(k, *args)


def bits(op, a, b):
    if dist(a):
        return mkpart([(bits(op, v, b), g) for v, g in a.a[0]])
    if dist(b):
        return mkpart([(bits(op, a, v), g) for v, g in b.a[0]])
    x, y = intval(a), intval(b)
    if x is not None and y is not None:
        x, y = int(x), int(y)
        return I(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
    if op == 'and' and (a.k == 'b2i' and y == 1 or b.k == 'b2i' and x == 1):
        return a if a.k == 'b2i' else b
    return mk(op, *sorted((a, b)))


def subst(e, env, memo=None, fn=None):
    """replace terms; env: {E: E}; fn(e) -> E or None is tried on every term whose arguments are already replaced"""
    if memo is None:
        memo = {}

    def cond(g):
        return B.map(g, atom, cmemo)

    def atom(a):
        x = amemo.get(a)
        if x is None:
            if a in env:
                x = B.atom(env[a])
            elif a.k == 'lt0':
                x = lt0(go(a.a[0]))
            elif a.k == 'eq0':
                x = eq0(go(a.a[0]))
            elif a.k == 'flt':
                x = fcmp('olt', go(a.a[0]), go(a.a[1]))
            elif a.k == 'feq0':
                x = fcmp('oeq', go(a.a[0]), F(0))
            elif a.k == 'feq':
                x = fcmp('oeq', go(a.a[0]), go(a.a[1]))
            else:
                y = go(a)
                x = B.atom(y)
            amemo[a] = x
        return x
    amemo = memo.setdefault('atoms', {})
    cmemo = memo.setdefault('conds', {})

    def go(e):
        r = memo.get(e)
        if r is not None:
            return r
        if e in env:
            r = env[e]
        elif e.k == 'poly':
            acc = I(0)
            # linear combination of (possibly gated) monomials
            for mono, c in e.a[0]:
                t = mk('poly', (((), c),))
                for x in mono:
                    t = imul(t, go(x))
                acc = iadd(acc, t)
            r = acc
        elif e.k == 'part':
            r = mkpart([(go(v), cond(g)) for v, g in e.a[0]], e.a[1])
        elif e.k == 'b2i':
            g = cond(e.a[0])
            r = I(g) if g in (0, 1) else mk('b2i', g)
        else:
            args = tuple(go(x) if isinstance(x, E) else (tuple(go(y) if isinstance(y, E) else y for y in x) if isinstance(x, tuple) else x) for x in e.a)
            r = rebuild(e, args)
            if fn:
                y = fn(r)
                if y is not None:
                    r = y
        if fn and e.k in ('poly', 'part'):
            y = fn(r)
            if y is not None:
                r = y
        memo[e] = r
        return r
    if isinstance(e, int):
        return cond(e)
    return go(e)


def iadd(a, b):
    if a.k == 'part' and a.a[1] == 'ite':
        return mkpart([(iadd(v, b), g) for v, g in a.a[0]])
    if b.k == 'part' and b.a[1] == 'ite':
        return mkpart([(iadd(a, v), g) for v, g in b.a[0]])
    if 'undef' in (a.k, b.k):
        return mk('undef')
    return rounded(padd(a, b)) if ROUND8[0] else padd(a, b)


# where the length of a bit map is compared: t/8 rounded up is 1 + (t-1)/8 in whichever way it is written (t >= 1)
ROUND8 = [False]


def rounded(e):
    """c*(t/8) + c*(t%8 != 0)  ->  c*(1 + (t-1)/8)"""
    if e.k != 'poly':
        return e
    m = pmap(e)
    for k, c in m.items():
        if len(k) == 1 and k[0].k == 'b2i':
            for q, d in m.items():
                if d == c and len(q) == 1 and q[0].k == 'udiv' and intval(q[0].a[1]) == 8 \
                        and k[0].a[0] == B.Not(B.atom(mk('eq0', mk('and', *sorted([q[0].a[0], I(7)]))))):
                    n = {x: y for x, y in m.items() if x is not k and x is not q and x != k and x != q}
                    up = mk('udiv', padd(q[0].a[0], I(-1)), I(8))
                    return rounded(padd(frompmap(n), pscale(padd(I(1), up), c)))
    return e


def imul(a, b):
    if a.k == 'part' and a.a[1] == 'ite':
        return mkpart([(imul(v, b), g) for v, g in a.a[0]])
    if b.k == 'part' and b.a[1] == 'ite':
        return mkpart([(imul(a, v), g) for v, g in b.a[0]])
    if 'undef' in (a.k, b.k):
        return mk('undef')
    return pmul(a, b)


def under(e, P):
    """e with the leaves that are dead under P removed (top level only)"""
    if e.k != 'part':
        return e
    return mkpart([(v, B.And(g, P)) for v, g in e.a[0] if B.And(g, P)], e.a[1])


_same = {}


def same(a, b, P=1):
    """a and b denote the same value wherever P holds"""
    if a is b or P == 0:
        return True
    key = (a, b, P)
    r = _same.get(key)
    if r is not None:
        return r
    r = _same_(a, b, P)
    _same[key] = r
    return r


def _same_(a, b, P):
    if a.k == 'part' or b.k == 'part':
        pa, pb = parts(a), parts(b)
        if (a.k == 'part' and a.a[1] == 'min') or (b.k == 'part' and b.a[1] == 'min'):
            pa = [(v, B.And(g, P)) for v, g in pa if B.And(g, P)]
            pb = [(v, B.And(g, P)) for v, g in pb if B.And(g, P)]

            def cov(x, y):
                for v, g in x:
                    acc = 0
                    for w, h in y:
                        gh = B.And(g, h)
                        if gh and same(v, w, gh):
                            acc = B.Or(acc, gh)
                    if not B.implies(g, acc):
                        return False
                return True
            return cov(pa, pb) and cov(pb, pa)
        for v, g in pa:
            for w, h in pb:
                q = B.And(P, g, h)
                if q and v.k != 'undef' and w.k != 'undef' and not same(v, w, q):
                    return False
        return True
    for x, y in ((a, b), (b, a)):
        # |v| against v or -v where the sign is known
        if x.k == 'fabs' and y.k != 'fabs':
            v, s, zero = x.a[0], x.a[0], mk('f', 0.0)
            while s.k in ('fptrunc', 'fpext'):       # rounding keeps the sign (or gives a zero)
                s = s.a[0]
            Q = B.And(P, B.Not(fcmp('oeq', s, zero)))
            for u, up, dn in ((v, flt(zero, s), flt(s, zero)), (fneg(v), flt(s, zero), flt(zero, s))):
                if (B.implies(P, up) or Q == P and B.implies(P, B.Not(dn))) and same(u, y, P):
                    return True
    if a.k != b.k or len(a.a) != len(b.a):
        return False
    if a.k == 'poly':
        # gated atoms inside polynomials
        ga = [x for x in patoms(a) | patoms(b) if x.k == 'part' or has_part(x)]
        if not ga:
            return False
        fa, fb = flatten_poly(a, P), flatten_poly(b, P)
        if fa is a and fb is b:
            ma, mb = sorted(pmap(a).items(), key=mkey), sorted(pmap(b).items(), key=mkey)
            if len(ma) != len(mb):
                return False
            used = set()
            for k1, v1 in ma:
                hit = False
                for i, (k2, v2) in enumerate(mb):
                    if i not in used and v1 == v2 and len(k1) == len(k2) and seqsame(k1, k2, P):
                        used.add(i)
                        hit = True
                        break
                if not hit:
                    return False
            return True
        return same(fa, fb, P)
    if a.k in ('fadd', 'fmul'):
        return (same(a.a[0], b.a[0], P) and same(a.a[1], b.a[1], P)) or (same(a.a[0], b.a[1], P) and same(a.a[1], b.a[0], P))
    if a.k == 'b2i':
        return B.And(P, B.Not(B.ite(a.a[0], b.a[0], B.Not(b.a[0])))) == 0
    if not a.a:
        return False
    for x, y in zip(a.a, b.a):
        if isinstance(x, E) and isinstance(y, E):
            if not same(x, y, P):
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y) or not all((same(u, v, P) if isinstance(u, E) and isinstance(v, E) else u == v) for u, v in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


def mkey(t):
    return (len(t[0]), tuple(x.id for x in t[0]))


def seqsame(k1, k2, P):
    if len(k1) == 1:
        return same(k1[0], k2[0], P)
    import itertools
    return any(all(same(x, y, P) for x, y in zip(k1, q)) for q in itertools.permutations(k2))


_hp = {}


def has_part(e):
    r = _hp.get(e)
    if r is None:
        r = e.k == 'part' or any(has_part(x) for x in sub(e))
        _hp[e] = r
    return r


def sub(e):
    """direct sub-terms"""
    if e.k == 'poly':
        return [x for k, _ in e.a[0] for x in k]
    if e.k == 'part':
        return [v for v, _ in e.a[0]]
    out = []
    for x in e.a:
        if isinstance(x, E):
            out.append(x)
        elif isinstance(x, tuple):
            out += [y for y in x if isinstance(y, E)]
    return out


def flatten_poly(e, P):
    acc = I(0)
    ch = False
    for mono, c in e.a[0]:
        t = mk('poly', (((), c),))
        for x in mono:
            if x.k == 'part':
                ch = True
            t = imul(t, x)
        acc = iadd(acc, t)
    return acc if ch else e


def walk(e, seen=None, conds=False):
    """every sub-term (with the atoms of guards when conds)"""
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += sub(x)
        if conds:
            if x.k == 'part':
                for _, g in x.a[0]:
                    st += list(B.support(g))
            if x.k == 'b2i':
                st += list(B.support(x.a[0]))
    return seen


_shown = {}


def show(e, d=0):
    if d > 9:
        return '..'
    r = _shown.get((e, d))
    if r is None:
        r = show_(e, d)
        if len(r) > 20000:
            r = r[:20000] + '...'
        _shown[e, d] = r
    return r


def show_(e, d):
    k = e.k
    if k == 'poly':
        if not e.a[0]:
            return '0'
        out = []
        for m, c in e.a[0]:
            s = '*'.join(show(x, d + 1) for x in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return '(' + ' + '.join(out) + ')'
    if k == 'f':
        return repr(e.a[0])
    if k == 'part':
        return ('min' if e.a[1] == 'min' else '') + '{' + '; '.join(show(v, d + 1) + ('' if g == 1 else ' if ' + B.show(g, 3, d + 1)) for v, g in e.a[0]) + '}'
    if k == 'fadd':
        return '(%s + %s)' % (show(e.a[0], d + 1), show(e.a[1], d + 1))
    if k == 'fmul':
        return '%s*%s' % (show(e.a[0], d + 1), show(e.a[1], d + 1))
    if k == 'fdiv':
        return '(%s / %s)' % (show(e.a[0], d + 1), show(e.a[1], d + 1))
    if k == 'fneg':
        return '-%s' % show(e.a[0], d + 1)
    if k == 'flt':
        return '(%s < %s)' % (show(e.a[0], d + 1), show(e.a[1], d + 1))
    if k == 'lt0':
        return '(%s < 0)' % show(e.a[0], d + 1)
    if k in ('eq0', 'feq0'):
        return '(%s == 0)' % show(e.a[0], d + 1)
    if k == 'ld':
        return '[%s]' % show(e.a[0], d + 1)
    if k == 'arg':
        return e.a[2]
    if k == 'iv':
        return 'iv%d' % e.a[1]
    if k == 'b2i':
        return 'int(%s)' % B.show(e.a[0], 3, d + 1)

    def s(x):
        if isinstance(x, E):
            return show(x, d + 1)
        if isinstance(x, tuple):
            return '(' + ','.join(s(y) for y in x) + ')'
        return str(x)
    return k + '(' + ', '.join(s(x) for x in e.a) + ')'
