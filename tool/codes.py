"""Ranges of the codes handed to the entropy coder: a code outside [0, alphabet) is looked up outside the coder's tables."""
from fractions import Fraction
from expr import *
from fn import Stop
import bounds

TOP = Fraction(1024)        # log2 of the largest double


class Range:
    """bounds of a value under a path condition; a bound is (integer polynomial, strict)"""

    def __init__(self, W):
        self.W = W
        self.memo = {}

    def of(self, e, P):
        key = (e, P)
        if key not in self.memo:
            self.memo[key] = (None, None)
            self.memo[key] = self.refine(e, P, *self.plain(e, P))
        return self.memo[key]

    def lo(self, e, P):
        return self.of(e, P)[0]

    def hi(self, e, P):
        return self.of(e, P)[1]

    # ---- comparisons the path condition implies
    def refine(self, e, P, lo, hi):
        if P == 1:
            return lo, hi
        n = fneg(e)
        for a in B.support(P):
            if a.k != 'flt' or not B.implies(P, B.atom(a)):
                continue
            if n in a.a and e not in a.a:                # -e < c, c < -e
                o = exact(a.a[1] if n is a.a[0] else a.a[0], P)
                if o is not None and n is a.a[0]:
                    lo = self.higher_of(lo, (pscale(o, -1), True))
                elif o is not None:
                    hi = self.lower_of(hi, (pscale(o, -1), True))
                continue
            if e not in a.a:
                continue
            o = exact(a.a[1] if e is a.a[0] else a.a[0], P)
            if o is None:
                continue
            if e is a.a[0]:
                hi = self.lower_of(hi, (o, True))
            else:
                lo = self.higher_of(lo, (o, True))
        return lo, hi

    def lower_of(self, a, b):
        if a is None or b is None:
            return a or b
        return b if nonneg_facts(psub(a[0], b[0])) else a

    def higher_of(self, a, b):
        if a is None or b is None:
            return a or b
        return b if nonneg_facts(psub(b[0], a[0])) else a

    # ---- structure
    def plain(self, e, P):
        k = e.k
        if k == 'f':
            v = frompmap({(): Fraction(e.a[0])} if e.a[0] else {}) if abs(e.a[0]) < 1e300 else None
            return ((v, False),) * 2 if v is not None else (None, None)
        if k == 'part':
            lo = hi = 0
            for x, g in e.a[0]:
                q = B.And(g, P)
                if not q:
                    continue
                l, h = self.of(x, q)
                lo = l if lo == 0 else None if lo is None or l is None else l if nonneg_facts(psub(lo[0], l[0])) else lo if nonneg_facts(psub(l[0], lo[0])) else None
                hi = h if hi == 0 else None if hi is None or h is None else h if nonneg_facts(psub(h[0], hi[0])) else hi if nonneg_facts(psub(hi[0], h[0])) else None
            return lo or None, hi or None
        if k in ('fptrunc', 'fpext', 'i2f'):
            return self.of(e.a[0], P)
        if k == 'fneg':
            l, h = self.of(e.a[0], P)
            n = lambda b: None if b is None else (pscale(b[0], -1), b[1])
            return n(h), n(l)
        if k == 'fabs':
            l, h = self.of(e.a[0], P)
            return (l if l and nonneg_facts(l[0]) else (I(0), False)), None
        if k == 'fadd':
            (l1, h1), (l2, h2) = self.of(e.a[0], P), self.of(e.a[1], P)
            s = lambda a, b: None if a is None or b is None else (padd(a[0], b[0]), a[1] or b[1])
            return s(l1, l2), s(h1, h2)
        if k == 'fmul':
            for c, x in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                if c.k == 'f' and c.a[0] > 0:
                    l, h = self.of(x, P)
                    s = lambda b: None if b is None else (pscale(b[0], Fraction(c.a[0])), b[1])
                    return s(l), s(h)
            if all(self.ge0(x, P) for x in e.a):
                return (I(0), False), None
            return None, None
        if k == 'fdiv':                               # bounds and block sizes, the divisors, are not negative
            return (((I(0), False), None) if self.ge0(e.a[0], P) else (None, None))
        if k == 'call' and e.a[0] == 'log2':
            x = e.a[2]
            l, h = self.of(x, P)
            lo = (I(0), False) if l and nonneg_facts(psub(l[0], I(1))) else None
            scale = Fraction(0)
            while x.k in ('fmul', 'fpext', 'fptrunc'):
                if x.k == 'fmul':
                    c = [y for y in x.a if y.k == 'f']
                    if not c or c[0].a[0] <= 0:
                        break
                    from math import log2, ceil
                    scale += ceil(log2(c[0].a[0]))
                    x = [y for y in x.a if y is not c[0]][0]
                else:
                    x = x.a[0]
            top = TOP
            if h and intval(h[0]) is not None and intval(h[0]) > 0:
                from math import log2, ceil
                return lo, (I(ceil(log2(intval(h[0])))), False)
            h = self.hi(x, P)
            if x.k == 'call' and x.a[0] == 'log2':
                top = 11                              # log2 of at most 1024, rounded up
            elif h and const(h[0]) is not None and const(h[0]) > 0:
                from math import log2, ceil
                top = ceil(log2(float(const(h[0]))))
            return lo, (I(int(top + scale)), False)
        if k == 'f2i':
            l, h = self.of(e.a[0], P)
            return self.trunc(l, 1), self.trunc(h, -1)
        if k in ('udiv', 'sdiv') and intval(e.a[1]):
            l, h = self.of(e.a[0], P)
            d = Fraction(1, intval(e.a[1]))
            if not l or not nonneg_facts(l[0]):
                return None, None
            return (I(0), False), (self.trunc((pscale(h[0], d), h[1]), -1) if h else None)
        m = pmap(e)
        if k == 'poly' or len(m) != 1 or list(m) != [(e,)]:
            lo = hi = (I(0), False)
            for ks, c in m.items():
                if not ks:
                    b = (frompmap({(): c}), False)
                    l = h = b
                elif len(ks) == 1:
                    l, h = self.of(ks[0], P)
                    l, h = [None if b is None else (pscale(b[0], c), False) for b in (l, h)]
                    if c < 0:
                        l, h = h, l
                else:
                    t = frompmap({ks: c})
                    l = h = (t, False)
                lo = None if lo is None or l is None else (padd(lo[0], l[0]), False)
                hi = None if hi is None or h is None else (padd(hi[0], h[0]), False)
            return lo, hi
        if k in ('or', 'exitval', 'arg', 'vecbytes', 'and', 'trip', 'iv', 'b2i') or k in ('sym',):
            return ((e, False),) * 2
        return None, None

    def ge0(self, x, P):
        l = self.lo(x, P)
        return bool(l and nonneg_facts(l[0]))

    def trunc(self, b, side):
        """bound of the truncated value: towards zero"""
        if b is None:
            return None
        p, strict = b
        v = const(p)
        if v is not None:
            v = Fraction(v)
            if side > 0:       # a lower bound
                if v >= 0:
                    f = v.numerator // v.denominator
                    return (I(f), False)
                f = -((-v.numerator) // v.denominator)        # truncation raises negative values
                if strict and f == v:
                    f += 1
                return (I(f), False)
            if v <= 0:
                return (I(0 if v > -1 else -((-v.numerator) // v.denominator)), False) if v == 0 else (I(-((-v.numerator) // v.denominator)), False)
            f = v.numerator // v.denominator
            if strict and f == v:
                f -= 1
            return (I(f), False)
        if strict and integral(p):
            return (padd(p, I(side)), False) if nonneg_facts(pscale(p, -side)) else (p, False)
        return (p, False) if integral(p) else None


def const(p):
    m = pmap(p)
    if not m:
        return Fraction(0)
    return Fraction(m[()]) if list(m) == [()] else None


def cases(g):
    """the condition split so that every limit it compares with is one polynomial"""
    out = [g]
    if g > 1:
        for a in B.support(g):
            if a.k == 'flt':
                for t in a.a:
                    while t.k in ('fpext', 'fptrunc'):
                        t = t.a[0]
                    if t.k == 'i2f' and t.a[0].k == 'part':
                        out = [B.And(q, h) for q in out for _, h in leaves(t.a[0], q)]
                        if len(out) > 64:
                            raise Stop('too many cases of a limit')
    return [q for q in out if q]


def exact(t, P):
    """a float expression that is an integer polynomial or a constant"""
    while t.k in ('fpext', 'fptrunc'):
        t = t.a[0]
    if t.k == 'f':
        return frompmap({(): Fraction(t.a[0])} if t.a[0] else {})
    if t.k == 'i2f':
        if t.a[0].k == 'part':
            vs = {v for v, _ in leaves(t.a[0], P)}
            return vs.pop() if len(vs) == 1 else None
        return t.a[0]
    return None


def even(x):
    """integer expression that is a multiple of two"""
    m = pmap(x)
    if list(m) == [(x,)]:
        if x.k in ('or',):
            return all(even(y) for y in x.a)
        if x.k == 'and':
            return any(even(y) for y in x.a)
        return False
    return all(c.denominator == 1 and c % 2 == 0 or c.denominator == 1 and any(even(y) for y in ks) for ks, c in ((a, Fraction(b)) for a, b in m.items()))


def integral(p):
    for ks, c in pmap(p).items():
        c = Fraction(c)
        if c.denominator == 1 or c.denominator == 2 and any(even(y) for y in ks):
            continue
        return False
    return True


def leaves(v, P):
    """[(leaf, condition)] of an integer value"""
    out = []
    for x, g in parts(v):
        q = B.And(g, P)
        if not q:
            continue
        if x.k == 'part':
            out += leaves(x, q)
        else:
            out.append((x, q))
    return out


def arrays(W):
    """[(call, alphabet, array)] of what the function hands to the entropy coder"""
    out = []
    for i in W.calls(r'^Huffman_encode_tree_and_data'):
        src = W.X(i['ops'][1])
        out.append((i, W.X(i['ops'][0]), W.base(src), src, W.X(i['ops'][2])))
    return out


def audit(c, W, name, marked):
    R = Range(W)
    bd = bounds.Bounds(W.mod, W, {})
    n = 0
    for call, alpha, b, src, cnt in arrays(W):
        for x in walk(alpha):
            if x.k == 'or':                          # numbers of intervals: unsigned
                assume_nonneg(x)
        if b is None:
            c.skip(name, 'array of codes not recognised at %s' % W.where(call))
            continue
        stores = [s for s in W.stores() if s['sty'] == 'i32' and W.base(W.X(s['ops'][1])) is b]
        consts = {}
        plain = []
        for s in stores:
            v = W.X(s['ops'][0])
            P = W.pc(s['b'], W.inner[s['b']])
            if W.inner[s['b']] >= 0:
                P = B.And(P, outer(bd, s['b']))
            for x, g in leaves(v, P):
                if x.k == 'ld' and W.base(x.a[0]) is b:
                    c.ob('range', name, W.where(s), True, 'a code of the same array')
                    n += 1
                    continue
                k = const(x)
                if k is not None:
                    consts.setdefault(k, []).append((s, g))
                else:
                    plain.append((s, x, g))
                for A, h in [t for r in cases(g) for t in leaves(alpha, r)]:
                    lo, hi = R.of(x, h)
                    good = lo is not None and hi is not None and nonneg_facts(lo[0]) and nonneg_facts(psub(psub(A, hi[0]), I(1)))
                    sure = lo is not None and hi is not None
                    n += 1
                    if good:
                        c.ob('range', name, W.where(s), True, '%s <= code <= %s < %s' % (show(lo[0])[:60], show(hi[0])[:60], show(A)[:60]))
                    elif understood(x):
                        c.ob('range', name, W.where(s), False, 'code %s, with nothing on its path that keeps it in [0, %s): lowest %s, highest %s' %
                             (show(x)[:500], show(A)[:80], lo and show(lo[0])[:80], hi and show(hi[0])[:80]))
                    else:
                        c.skip(name, 'code %s at %s' % (show(x)[:120], W.where(s)))
        if marked:
            for s, x, g in plain:
                for k, ws in consts.items():
                    ws = [(w, q) for w, q in ws if W.inner[w['b']] == W.inner[s['b']]]     # the same kind of block
                    if not ws:
                        continue
                    gk = B.Or(*[q for _, q in ws])
                    # the marker may be possible only where other conditions hold
                    g2 = B.And(g, common(bd, gk) if k else 1)
                    los = [R.lo(x, r) for r in cases(g2)]
                    if not los:
                        continue
                    lo = ([l for l in los if l is None or not nonneg_facts(psub(psub(l[0], frompmap({(): k} if k else {})), I(1)))] or los)[0]
                    ok = lo is not None and nonneg_facts(psub(psub(lo[0], frompmap({(): k} if k else {})), I(1)))
                    n += 1
                    if ok or understood(x):
                        c.ob('marker', name, W.where(s), ok, 'a quantised code is at least %s, the marker is %s' % (lo and show(lo[0])[:80], k) if ok else
                             'a quantised code %s can be as low as %s: the marker %s means something else to the decoder' % (show(x)[:400], lo and show(lo[0])[:80], k))
    return n


def outer(bd, b):
    g = bd.guard(b)
    return g if g is not None else 1


def common(bd, g):
    """what the condition says about things no loop changes"""
    if g > 1:
        for a in B.support(g):
            if any(x.k in ('iv', 'mu', 'ld') for y in a.a if isinstance(y, E) for x in walk(y)) and not all(x.k == 'f' or fixed(x) for x in a.a):
                g = B.exists(g, a)
    return g


def fixed(e):
    """no current cell or counter in it, other than inside a finished loop"""
    if not isinstance(e, E):
        return True
    if e.k in ('exitval', 'vecbytes', 'vecdata', 'arg', 'f'):
        return True
    if e.k in ('iv', 'mu', 'ld', 'after', 'alloca', 'mem', 'exit'):
        return False
    if e.k == 'part':
        return all(fixed(v) for v, _ in e.a[0])
    m = pmap(e)
    if list(m) != [(e,)]:
        return all(fixed(x) for x in patoms(e))
    return all(fixed(x) for x in e.a)


def understood(x):
    """codes of a form the rule knows: radius and truncated quotient, truncated logarithm, constants"""
    for y in patoms(x):
        if y.k in ('f2i', 'or', 'and') or y.k == 'udiv' and understood(y.a[0]) and intval(y.a[1]):
            continue
        return False
    return True


# ---------------------------------------------------------------- every code that is encoded was set
def fill(c, W, name):
    """cursors move over written codes only; counted arrays are written from the first to the last code"""
    k = 0
    for call, alpha, b, src, cnt in arrays(W):
        if b is None:
            continue
        stores = []
        for s in W.stores():
            if s['sty'] != 'i32':
                continue
            a = W.X(s['ops'][1])
            if W.base(a) is b:
                P = W.pc(s['b'], W.inner[s['b']])
                for x, g in leaves(a, P):
                    stores.append((x, W.inner[s['b']], g, s))
        mus = {x for a, L, g, s in stores for x in patoms(a) if x.k == 'mu'}
        where = W.where(call)
        if mus:
            for mu in sorted(mus):
                L = mu.a[1]
                init, nx = W.phi_parts(mu)
                for v, g in leaves(nx, 1):
                    d = intval(psub(v, mu))
                    d = int(d) if d is not None else None
                    if d is None:
                        r = inner(W, stores, mu, L, v, mus)
                        if r is None:
                            c.skip(name, 'cursor of the codes at %s' % where)
                        elif r is not True:
                            k += 1
                            c.ob('filled', name, where, not r[1], 'codes of a row are all set' if not r[1] else 'the cursor passes a code that is not set when %s' % B.show(r[1], 3)[:500])
                        continue
                    if d % 4 or d < 0 or d > 256:
                        c.skip(name, 'cursor of the codes at %s' % where)
                        continue
                    for j in range(0, d, 4):
                        cell = iadd(mu, I(j))
                        w = B.Or(*[h for a, l, h, s in stores if a is cell and l == L])
                        if any(l != L and W.is_inside(l, L) for a, l, h, s in stores) and not B.implies(g, w):
                            c.skip(name, 'codes written in an inner loop at %s' % where)
                            continue
                        k += 1
                        c.ob('filled', name, where, B.implies(g, w), 'code %d of %d of a step is set whenever the step is made' % (j // 4 + 1, d // 4) if B.implies(g, w) else
                             'the cursor of the codes advances by %d, but code %d of the step is not set when %s' % (d // 4, j // 4, B.show(B.And(g, B.Not(w)), 3)[:500]))
            continue
        groups = {}
        for a, L, g, s in stores:
            groups.setdefault(L, []).append((psub(a, b), g, s))
        segs, open_ = [], False
        for L, st in groups.items():
            seg = segment(W, L, st)
            if seg is None:
                open_ = True
                continue
            off, total, gap = seg
            if gap is not None:
                if len(groups) == 1:
                    k += 1
                    c.ob('filled', name, where, False, 'a code is not set when %s' % B.show(gap, 3)[:500])
                open_ = True
                continue
            segs.append((off, total))
        if open_ or not segs:
            c.skip(name, 'which codes are set before %s' % where)
            continue
        at, rest = psub(src, b), list(segs)
        while rest:
            nx = [x for x in rest if x[0] is at]
            if not nx:
                break
            at = iadd(at, nx[0][1])
            rest.remove(nx[0])
        k += 1
        end = iadd(psub(src, b), pscale(cnt, 4))
        ok = not rest and at is end
        c.ob('filled', name, where, ok, 'codes 0 .. %s are set' % show(cnt)[:80] if ok else
             'the codes that are set, %s, are not the %s codes that are encoded' % ('; '.join('bytes %s from %s' % (show(t)[:80], show(o)[:80]) for o, t in segs), show(cnt)[:80]))
    return k


def inner(W, stores, mu, L, v, mus):
    """the cursor moves by what an inner loop wrote: True when that loop's own cursor answers for it, (loop, gap) for a counted row"""
    if v.k == 'exitval':
        l = v.a[0] if not isinstance(v.a[0], str) else v.a[1]
        for n in mus:
            if n is not mu and W.is_inside(n.a[1], L) and W.phi_parts(n)[0] is mu:
                return True
        return None
    d = psub(v, mu)
    for l in {l for a, l, h, s in stores if l != L and l >= 0 and W.loops[l].parent == L}:
        iv = W.loops[l].iv
        cell = iadd(mu, pscale(iv, 4))
        if d is pscale(W.trip(l), 4):
            w = B.Or(*[h for a, x, h, s in stores if a is cell and x == l])
            if any(a is cell and x == l for a, x, h, s in stores):
                return l, B.Not(w)
    return None


def segment(W, L, st):
    """(first byte, bytes, condition of a gap or None) of what a loop nest writes; None if it is not one gapless block"""
    consts = {}
    var = None
    for a, g, s in st:
        m = dict(pmap(a))
        inner = {ks: v for ks, v in m.items() if any(x.k == 'iv' for x in ks)}
        off = frompmap({ks: v for ks, v in m.items() if ks not in inner})
        inner = frompmap(inner)
        if var is not None and var is not inner:
            return None
        var = inner
        consts[off] = B.Or(consts.get(off, 0), g)
    offs = sorted(consts, key=lambda o: intval(psub(o, next(iter(consts)))) or 0)
    d = [None if intval(psub(o, offs[0])) is None else int(intval(psub(o, offs[0]))) for o in offs]
    gap = B.Not(B.And(*consts.values()))
    if L < 0:
        return (offs[0], I(4 * len(offs)), gap or None) if d == list(range(0, 4 * len(offs), 4)) else None
    size = I(4 * len(offs))
    if d != list(range(0, 4 * len(offs), 4)):
        # fewer codes than the step: compare with the stride below
        return None
    l = L
    left = var
    while l >= 0:
        iv, t = W.loops[l].iv, W.trip(l)
        if t.k in ('trip', 'part'):
            return None
        # coefficient of this counter
        co = frompmap({tuple(x for x in ks if x is not iv): v for ks, v in pmap(left).items() if iv in ks})
        if co is not size:
            return None
        left = frompmap({ks: v for ks, v in pmap(left).items() if iv not in ks})
        size = imul(size, t)
        l = W.loops[l].parent
    return offs[0], size, gap or None
