"""Error-bound gates: every value a compressor keeps in place of an original was compared with it, against a bound that the user's bound limits."""
import re
from expr import *
from expr import F as fconst
from pair import fold, theory_of
from fn import Stop


def strip(e):
    while e.k in ('fpext', 'fptrunc'):
        e = e.a[0]
    return e


def above(e):
    """sub-terms, not looking into calls and conditions"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if x.k not in ('call', 'callv', 'ld'):
            st += sub(x)


def quantised(e):
    """does the value come from a quantisation index (an integer made of a real quotient)"""
    for x in above(e):
        if x.k in ('i2f', 'f2i') and any(y.k == 'f2i' for y in above(x)):
            return True
        if x.k == 'call' and x.a[0] in ('exp2', 'exp2f', 'exp', 'pow') and quantised(x.a[-1]):
            return True
    return False


def lower(e, F, k):
    """terms over the loop k's last iteration instead of its exit values"""
    def hook(x):
        if x.k == 'exitval' and x.a[0] == F.name and x.a[1] == k:
            return lower(x.a[2], F, k)
        return None
    return subst(e, {}, {}, hook)


class Kept:
    """the values one iteration of a loop leaves in the cells of a buffer"""

    def __init__(self, W):
        self.W = W

    def groups(self):
        W = self.W
        g = {}
        for s in W.stores():
            L = W.inner[s['b']]
            if L < 0 or s['sty'] not in ('float', 'double'):
                continue
            a = W.X(s['ops'][1])
            b = W.base(a)
            if b is None or b.k not in ('mem', 'arg', 'alloca'):
                continue
            g.setdefault((L, b), []).append((a, W.X(s['ops'][0]), W.pc(s['b'], L), s))
        return g

    def cells(self):
        """(target address, value, guard, store) with later stores of the same iteration taken into account"""
        for (L, b), st in self.groups().items():
            seen = []
            for a, v, g, s in st:
                for t, _ in parts(a):
                    if t not in seen:
                        seen.append(t)
            for t in seen:
                keep = mk('kept')
                v = fold([x[:3] for x in st], t, keep)
                for x, h in parts(v):
                    if x is not keep and h:
                        ss = [s for a, w, g, s in st if any(y is x for y, _ in parts(w))] or [st[0][3]]
                        yield L, b, t, x, h, ss[0]

    def expand(self, x, h, t):
        """leaf values behind exit values and exponentials: [(value, condition, cell address)]"""
        W = self.W
        if x.k == 'exitval' and x.a[0] == W.name:
            k = x.a[1]
            H = 1
            for a in B.support(h):
                if any(y.k == 'exitval' and y.a[0] == W.name and y.a[1] == k for y in walk(a)):
                    pos, neg = B.implies(h, B.atom(a)), B.implies(h, B.Not(B.atom(a)))
                    if pos or neg:
                        c = lowatom(a, W, k)
                        H = B.And(H, c if pos else B.Not(c))
            return [r for y, g in parts(x.a[2]) if B.And(g, H) for r in self.expand(y, B.And(g, H), t)]
        y = x.a[0] if x.k == 'fneg' else x
        if y.k == 'call' and y.a[0] in ('exp2', 'exp2f'):
            return [r for z, g in parts(y.a[-1]) if B.And(g, h) for r in self.expand(z, B.And(g, h), t)]
        return [(x, h, t)]


def lowatom(a, F, k):
    b = lower(a, F, k) if False else None
    r = subst(mk('b2i', B.atom(a)), {}, {}, lambda x: lower_exit(x, F, k))
    if r.k == 'b2i':
        return r.a[0]
    v = intval(r)
    if v is not None:
        return int(v != 0)
    return B.Not(eq0(r))


def lower_exit(x, F, k):
    if x.k == 'exitval' and x.a[0] == F.name and x.a[1] == k:
        return x.a[2]
    return None


def gates(h):
    """comparisons |D| < E, |D| <= E that the condition implies: [(D, E, strict)]"""
    out = []
    for a in B.support(h):
        if a.k != 'flt':
            continue
        x, y = a.a
        if strip(x).k == 'fabs' and B.implies(h, B.atom(a)):
            out.append((strip(x).a[0], y, True))
        elif strip(y).k == 'fabs' and B.implies(h, B.Not(B.atom(a))):
            out.append((strip(y).a[0], x, False))
    return out


def terms(e, s=1):
    """signed terms of a sum"""
    e = strip(e)
    if e.k == 'fadd':
        return terms(e.a[0], s) + terms(e.a[1], s)
    if e.k == 'fneg':
        return terms(e.a[0], -s)
    return [(e, s)]


def difference(D, x, P):
    """o such that D = +-(x - o)"""
    D = strip(D)
    if number(strip(x)) == 0 and D.k != 'fadd':
        return strip(D.a[0] if D.k == 'fneg' else D)
    if D.k != 'fadd':
        return None
    for p, q in (D.a, D.a[::-1]):
        for sg in (1, -1):
            p1 = p if sg == 1 else fneg(p)
            q1 = q if sg == 1 else fneg(q)
            # p1 == x and q1 == -o
            if strip(p1) is strip(x) or same(strip(p1), strip(x), P):
                return strip(fneg(q1))
    return None


class Unknown(Exception):
    pass


class Over(Exception):
    pass


def factors(e):
    e = strip(e)
    if e.k == 'fmul':
        return factors(e.a[0]) + factors(e.a[1])
    return [e]


def number(e):
    return e.a[0] if e.k == 'f' else None


class Bound:
    """where a bound comes from: the set of ways in which the user's bound limits it

    ('user', name)  at most the argument        ('rel', x)  at most argument * |x|
    ('log', name)   at most log2(1 + argument)  ('cell', a) at most the caller's bound of the same element (array argument a)
    """

    def __init__(self, W):
        self.W = W
        self.busy = set()
        self.assumed = {}

    def of(self, e, g, o=None, at=None, ins=None):
        """kinds of the bound e under condition g; o: the original value it is compared with; at: its address"""
        W = self.W
        e = strip(e)
        if e.k == 'part':
            live = [(v, B.And(c, g)) for v, c in parts(e) if B.And(c, g)]
            if e.a[1] == 'min':
                rest, out, why, over = g, set(), [], None
                for v, c in live:
                    try:
                        out |= self.of(v, c, o, at, ins)
                        rest = B.And(rest, B.Not(c))
                    except Unknown as x:
                        why.append(str(x))
                    except Over as x:
                        over = x
                P = theory_of(e)
                if B.And(rest, P):
                    if over:
                        raise over
                    if out:
                        raise Over('the minimum does not always include the bound the user gave (missing when %s)' % B.show(B.And(rest, P), 6)[:300])
                    raise Unknown('; '.join(why)[:200])
                return out
            out = set()
            for v, c in live:
                try:
                    out |= self.of(v, c, o, at, ins)
                except Unknown as x:
                    r = self.below(v, c, o, at, ins)
                    if r is None:
                        raise
                    out |= r
            return out
        c = number(e)
        if c is not None:
            if c == 0:
                return set()
            raise Over('the constant %r' % c)
        if e.k == 'arg':
            return {('user', W.j['args'][e.a[1]]['name'])}
        q = self.quantised_down(e, g, o, at, ins)
        if q is not None:
            return q
        if e.k == 'call' and e.a[0] in ('log2', 'log2f', 'log', 'log1p'):
            x = strip(e.a[-1])
            if e.a[0] == 'log1p':
                raise Unknown('natural logarithm')
            if x.k == 'part':
                return set().union(*[self.of(mk('call', *e.a[:-1], v), B.And(g, h), o, at, ins) for v, h in parts(x) if B.And(g, h)])
            if x.k == 'fadd':
                for p, r in (x.a, x.a[::-1]):
                    if number(p) == 1.0:
                        ks = self.of(r, g, o, at, ins)
                        if e.a[0] == 'log' and False:
                            pass
                        if any(k[0] != 'user' for k in ks):
                            raise Over('the logarithm of a bound that is not the plain user bound')
                        return {('log', k[1]) for k in ks}
            raise Unknown('logarithm of ' + show(x)[:80])
        if e.k in ('fmul', 'fdiv'):
            fs = factors(e) if e.k == 'fmul' else factors(e.a[0])
            c = 1.0
            rest = []
            for f in fs:
                n = number(f)
                if n is None:
                    rest.append(f)
                else:
                    c *= abs(n)
            if e.k == 'fdiv':
                n = number(strip(e.a[1]))
                if n is None:
                    raise Unknown('quotient ' + show(e)[:80])
                c /= abs(n)
            if c > 1:
                raise Over('%g times the bound' % c)
            if len(rest) == 1:
                return self.of(rest[0], g, o, at, ins)
            if len(rest) == 2:
                for p, r in (rest, rest[::-1]):
                    if p.k == 'fabs' or strip(p).k == 'part' and all(strip(v).k == 'fabs' for v, _ in parts(strip(p))):
                        ks = self.of(r, g, o, at, ins)
                        if any(k[0] != 'user' for k in ks):
                            raise Over('the product of a value and a bound that is not the plain user bound')
                        x = strip(p.a[0]) if p.k == 'fabs' else None
                        if x is None:
                            raise Unknown('relative to ' + show(p)[:80])
                        if o is not None:
                            if x is strip(o) or same(x, strip(o), g) or strip(fneg(x)) is strip(o):
                                return {('rel', k[1]) for k in ks}
                            raise Over('relative to %s, not to the value that is compressed (%s)' % (show(x)[:80], show(o)[:80]))
                        if x.k == 'ld' and at is not None:
                            b, b2 = W.base(x.a[0]), W.base(at)
                            if b is not None and b2 is not None and b.k == 'arg':
                                return {('relof', b, pscale(psub(x.a[0], b), Fraction(1, nbytes_of(x.a[1]))), pscale(psub(at, b2), Fraction(1, 8)), k[1]) for k in ks}
                        raise Unknown('relative to ' + show(x)[:80])
            raise Unknown('product ' + show(e)[:100])
        if e.k == 'ld':
            return self.array(e, g, o, at, ins)
        if e.k == 'mu' and e.a[0] == W.name:
            if e in self.busy:
                return set()
            self.busy.add(e)
            try:
                init, nx = W.phi_parts(e)
                return self.of(init, 1, o, at, ins) | self.of(nx, 1, o, at, ins)
            finally:
                self.busy.discard(e)
        if e.k == 'exitval' and e.a[0] == W.name:
            return self.of(e.a[2], 1, o, at, ins)
        raise Unknown(show(e)[:100])

    def below(self, v, g, o, at, ins):
        """kinds of a bound that the condition g says v does not exceed"""
        for a in B.support(g):
            if a.k != 'flt':
                continue
            for x, y, ok in ((a.a[0], a.a[1], B.implies(g, B.atom(a))), (a.a[1], a.a[0], B.implies(g, B.Not(B.atom(a))))):
                if ok and x is v and a not in self.busy:
                    self.busy.add(a)
                    try:
                        return self.of(y, g, o, at, ins)
                    except (Unknown, Over):
                        pass
                    finally:
                        self.busy.discard(a)
        return None

    def quantised_down(self, e, g, o, at, ins):
        """c1 * b^trunc(k*log2(c2*X)) with k = 1/log2(b), c1*c2 <= 1 and c1 < X"""
        import math
        fs = factors(e)
        c1, pw = 1.0, None
        for f in fs:
            n = number(f)
            if n is not None:
                c1 *= n
            elif f.k == 'call' and f.a[0] in ('pow', 'exp2') and pw is None:
                pw = f
            else:
                return None
        if pw is None:
            return None
        b = number(strip(pw.a[-2])) if pw.a[0] == 'pow' else 2.0
        ex = strip(pw.a[-1])
        if ex.k != 'i2f' or b is None or b <= 1:
            raise Unknown('power ' + show(e)[:100])
        n = ex.a[0]
        off = 0.0
        if n.k == 'poly' and any(m == () for m, q in n.a[0]):
            off = float(sum(q for m, q in n.a[0] if m == ()))
            n = psub(n, I(int(off)))
        if n.k == 'poly' and len(n.a[0]) == 1 and n.a[0][0][1] == 1 and len(n.a[0][0][0]) == 1:
            n = n.a[0][0][0]
        if n.k != 'f2i':
            raise Unknown('exponent ' + show(n)[:100])
        k, lg, div = 1.0, None, None
        y = strip(n.a[0])
        off += sum(number(t) * sg for t, sg in terms(y) if number(t) is not None)
        rest = [(t, sg) for t, sg in terms(y) if number(t) is None]
        if off > 1e-9 and len(rest) == 1:
            raise Over('quantisation rounds the bound up: exponent + %g' % off)
        if len(rest) == 1 and rest[0][1] == 1:
            y = strip(rest[0][0])
        if y.k == 'fdiv':
            d = number(strip(y.a[1]))
            if d is None:
                raise Unknown('exponent ' + show(n)[:100])
            k, y = 1.0 / d, strip(y.a[0])
        for f in factors(y):
            m = number(f)
            if m is not None:
                k *= m
            elif f.k == 'call' and f.a[0] in ('log2', 'log2f') and lg is None:
                lg = f
            elif f.k == 'call' and f.a[0] in ('log', 'log10') and lg is None:
                lg = f
                k /= math.log2(math.e) ** -1 if f.a[0] == 'log' else math.log2(10) ** -1
            else:
                raise Unknown('exponent ' + show(n)[:100])
        if lg is None:
            raise Unknown('exponent ' + show(n)[:100])
        x = strip(lg.a[-1])
        c2 = 1.0
        if x.k == 'fdiv':
            d = number(strip(x.a[1]))
            if d is None:
                raise Unknown('exponent ' + show(n)[:100])
            c2, x = 1.0 / d, strip(x.a[0])
        xs = []
        for f in factors(x):
            m = number(f)
            if m is None:
                xs.append(f)
            else:
                c2 *= m
        if k * math.log2(b) > 1 + 1e-12 or c1 * c2 > 1 + 1e-12:
            raise Over('quantisation rounds the bound up: exponent factor %g, scale %g' % (k * math.log2(b), c1 * c2))
        if not xs:
            raise Unknown('exponent ' + show(n)[:100])
        X = xs[0]
        for f in xs[1:]:
            X = fmul(X, f)
        # truncation goes towards zero, so an exponent below zero would be rounded up
        idx = ex.a[0]
        for v, c in parts(X):
            h = B.And(g, c)
            if X.k == 'part' and X.a[1] == 'min':
                v, h = X, g
            if not h:
                continue
            big = flt(mk('f', c1), v)
            pos = B.And(B.Not(lt0(idx)))
            if B.implies(h, big) or B.implies(h, pos) or B.implies(B.And(h, theory_of(v, h, big)), big):
                continue
            if X.k == 'part' and X.a[1] != 'min' and B.implies(h, flt(mk('f', c1), X)):
                continue
            raise Over('a bound below %g is rounded up by the quantisation' % c1)
        return self.of(X, g, o, at, ins)

    def array(self, e, g, o, at, ins):
        """a bound read from memory: the caller's array (same element as the original), or a local array all of whose entries are limited"""
        W = self.W
        b = W.base(e.a[0])
        if b is None:
            raise Unknown('bound loaded from ' + show(e.a[0])[:80])
        if b.k == 'arg':
            return {('cell', b, e.a[0])}
        if b.k != 'mem':
            raise Unknown('bound loaded from ' + show(e.a[0])[:80])
        if b in self.assumed:
            return self.assumed[b]
        return self.content(b, ins)

    def top(self, i):
        W = self.W
        l = W.inner[i['b']]
        while l >= 0 and W.loops[l].parent >= 0:
            l = W.loops[l].parent
        return l

    def content(self, b, ins):
        """kinds of the entries of a local array of bounds before instruction ins, loop by loop"""
        W = self.W
        stages = []
        for s in W.stores():
            a = W.X(s['ops'][1])
            if W.base(a) is not b:
                continue
            t = self.top(s)
            if stages and stages[-1][0] == t:
                stages[-1][1].append((s, a))
            else:
                stages.append((t, [(s, a)]))
        lim = W.key(ins) if ins is not None else None
        state = set()
        seen = False
        for t, ss in stages:
            if lim is not None and W.key(ss[0][0]) > lim:
                break
            had = b in self.assumed
            old = self.assumed.get(b)
            self.assumed[b] = state
            try:
                new = set()
                # a cell stored twice in an iteration keeps the last value
                last = {}
                for s, a in ss:
                    last[(W.inner[s['b']], a, W.pc(s['b']))] = s
                for s, a in ss:
                    v = W.X(s['ops'][0])
                    h = W.pc(s['b'], W.inner[s['b']])
                    for s2, a2 in ss:
                        if s2 is not s and W.key(s2) > W.key(s) and W.inner[s2['b']] == W.inner[s['b']] and a2 is a:
                            h = B.And(h, B.Not(W.pc(s2['b'], W.inner[s2['b']])))
                    if not h:
                        continue
                    new |= self.of(v, h, None, a, s)
                state = new
                seen = True
            finally:
                if had:
                    self.assumed[b] = old
                else:
                    self.assumed.pop(b, None)
        if not seen:
            raise Unknown('no store to the array of bounds')
        return state


def nbytes_of(ty):
    return {'float': 4, 'double': 8, 'i32': 4, 'i64': 8}.get(ty, 1)


def aligned(W, p, sp, q, sq, done=None):
    """do the two pointers move over the same element of their arrays, sp and sq bytes wide (cursors by induction)"""
    done = set() if done is None else done
    if (p, q) in done:
        return True
    if p.k == 'part' or q.k == 'part':
        return all(aligned(W, v, sp, w, sq, done) for v, g in parts(p) for w, h in parts(q) if B.And(g, h, theory_of(p, q)))
    p1 = {k: c / sp for k, c in pmap(p).items()}
    q1 = {k: c / sq for k, c in pmap(q).items()}
    ms, ns = [], []
    for m, out in ((p1, ms), (q1, ns)):
        for k in list(m):
            if len(k) == 1 and (k[0].k in ('arg', 'mem', 'alloca') and W.base(k[0]) is k[0] or k[0].k == 'mu' and k[0].a[0] == W.name and W.ins[k[0].a[2]]['ty'] == 'ptr'):
                if k[0].k == 'mu':
                    out.append(k[0])
                del m[k]
    d = dict(p1)
    for k, c in q1.items():
        d[k] = d.get(k, 0) - c
    if any(d.values()) or len(ms) != len(ns) or len(ms) > 1:
        return False
    if not ms:
        return True
    a, b = ms[0], ns[0]
    if a.a[1] != b.a[1]:
        return False
    done = done | {(p, q), (a, b)}
    (i1, n1), (i2, n2) = W.phi_parts(a), W.phi_parts(b)
    return aligned(W, i1, sp, i2, sq, done) and aligned(W, n1, sp, n2, sq, done)


def source(W, b):
    """argument a local buffer holds the data of: copied with memcpy, or stored as a function of loads from it"""
    out = set()
    for s in W.stores():
        a = W.X(s['ops'][1])
        if W.base(a) is b and s.get('sty') in ('float', 'double'):
            for x in walk(W.X(s['ops'][0])):
                if x.k == 'ld':
                    y = W.base(x.a[0])
                    if y is not None and y.k == 'arg':
                        out.add(y)
    for i in W.calls(r'mem(cpy|move)'):
        if W.base(W.X(i['ops'][0])) is b:
            y = W.base(W.X(i['ops'][1]))
            if y is not None and y.k == 'arg':
                out.add(y)
    return out


def hidden(W, h):
    """does the condition use a flag whose computation the analysis did not open"""
    for a in B.support(h):
        if a.k in ('eq0', 'lt0'):
            for x in above(a.a[0]):
                if x.k in ('exitval', 'mu', 'ldv', 'after', 'opaque') and x.a[0] == W.name:
                    return True
                if x.k == 'callv' and W.ins.get(x.a[1], {}).get('ty') in ('i1', 'i8', 'i32') and not re.search('vector<bool|compute_cp|_M_', W.ins[x.a[1]].get('dem', '')):
                    return True
    return False


def audit(c, W, name, expect, log, hook=None):
    """obligations of one compressor; expect: kinds of bound that limit the values it keeps"""
    k, bd = Kept(W), Bound(W)
    groups = {}
    for L, b, t, x, h, s in k.cells():
        if b.k != 'mem':
            continue
        for y, g, _ in k.expand(x, h, t):
            P = theory_of(y, g)
            gg = B.And(g, P)
            if gg:
                groups.setdefault((L, b), []).append((t, y, gg, s))
    n = 0
    srcs = {}
    for (L, b), xs in groups.items():
        if not any(strip(y).k == 'fadd' and quantised(y) for t, y, gg, s in xs):
            continue
        oo = {}
        data = False
        for t, y, gg, s in xs:
            if not (strip(y).k == 'fadd' and quantised(y)):
                continue
            where = W.where(s)
            hits, nogate = [], True
            for D, E_, strict in gates(gg):
                o = difference(D, y, gg)
                if o is not None:
                    hits.append((o, E_))
            if not hits:
                if hidden(W, gg):
                    c.skip(name, '%s: the condition under which %s is kept was not opened' % (where, show(y)[:60]))
                else:
                    c.ob('gate', name + '/gate', where, False, 'keeps the reconstruction %s although it was not compared with the original within the bound; it is kept when %s' % (show(y)[:200], B.show(gg, 4)[:300]))
                continue
            n += 1
            c.ob('gate', name + '/gate', where, True, 'kept only within the bound')
            best = None
            if not any(strip(v).k == 'ld' for o, E_ in hits for v, h in parts(o)):
                continue          # a coefficient, not data: what it may deviate is settled when the data are compared
            for o, E_ in hits:
                try:
                    ks = bd.of(E_, gg, o, None, s)
                except Unknown as u:
                    r = (1, 'unknown', str(u))
                except Over as u:
                    r = (2, 'over', str(u))
                else:
                    bad = [q for q in ks if not okkind(W, q, o, expect)]
                    r = (0, 'ok', '') if not bad else (3, 'kind', ', '.join(describe(q) for q in bad))
                if best is None or r < best[0]:
                    best = (r, o, E_)
            r, o, E_ = best
            if hook:
                hook(s, E_, gg)
            leaf = [v for v, h in parts(o) if B.And(h, gg)]
            isdata = all(strip(v).k == 'ld' for v in leaf)
            data |= isdata
            oo.setdefault(t, []).append(o)
            if r[0] == 1:
                c.skip(name, '%s: bound %s' % (where, r[2]))
            else:
                c.ob('bound', name + '/bound', where, r[0] == 0, 'the bound the reconstruction is compared with is not limited by the user\'s: ' + r[2])
            if isdata:
                for v in leaf:
                    ob = W.base(strip(v).a[0])
                    if ob is None or ob.k not in ('mem', 'arg'):
                        c.skip(name, '%s: original %s' % (where, show(v)[:60]))
                        continue
                    if ob.k == 'mem':
                        same_off = any(psub(psub(strip(v).a[0], ob), psub(tt, b)) is I(0) or eq0(psub(psub(strip(v).a[0], ob), psub(tt, b))) == 1 for tt, _ in parts(t)) or ob is b and strip(v).a[0] is t
                        if not same_off and len(leaf) > 1:
                            continue
                        c.ob('cell', name + '/cell', where, same_off, 'compares the reconstruction of %s with another cell, %s' % (show(t)[:80], show(v)[:80]))
                        if ob is not b:
                            sa, sb = srcs.setdefault(b, source(W, b)), srcs.setdefault(ob, source(W, ob))
                            if sa and sb:
                                c.ob('component', name + '/component', where, sa == sb, 'compares data of %s with data of %s' % (show(list(sa)[0]), show(list(sb)[0])))
                            if log:
                                logstores(c, W, name, ob)
                if len(leaf) > 1:
                    ok = any(strip(v).k == 'ld' and W.base(strip(v).a[0]) is b and any(strip(v).a[0] is tt for tt, _ in parts(t)) for v in leaf)
                    c.ob('cell', name + '/cell', where, ok, 'compares the reconstruction of %s with another cell' % show(t)[:80])
        if not data:
            continue
        for t, y, gg, s in xs:
            if strip(y).k == 'fadd' and quantised(y):
                continue
            where = W.where(s)
            os_ = oo.get(t, [])
            if not os_:
                continue
            if any(strip(o) is strip(y) or same(strip(o), strip(y), gg) for o in os_):
                c.ob('verbatim', name + '/verbatim', where, True, 'original kept')
                continue
            ok = None
            for D, E_, strict in gates(gg):
                o = difference(narrow(D, gg), y, gg)
                if o is not None and any(o is q or same(o, q, gg) for q in os_):
                    try:
                        ok = all(okkind(W, q, o, expect) for q in bd.of(E_, gg, o, None, s))
                    except Unknown:
                        pass
                    except Over:
                        ok = False
            if ok is None:
                c.skip(name, '%s: other kept value %s' % (where, show(y)[:80]))
            else:
                c.ob('verbatim', name + '/verbatim', where, ok, 'keeps a value that is neither the original nor within the bound: ' + show(y)[:200])
    return n


def coded(c, W, name, expect):
    """quantisation codes of data: each was checked, whether or not the encoder keeps the reconstruction itself"""
    import codes
    bd = Bound(W)
    n = 0
    for call, alpha, b, src, cnt in codes.arrays(W):
        if b is None:
            continue
        for s in W.stores():
            if s['sty'] != 'i32' or W.base(W.X(s['ops'][1])) is not b:
                continue
            for x, g in codes.leaves(W.X(s['ops'][0]), W.pc(s['b'], W.inner[s['b']])):
                idx = {y for y in walk(x) if y.k == 'f2i'}
                oris = {y for i in idx for q in walk(i.a[0]) if q.k == 'fabs' for y in (strip(t) for t, _ in terms(q.a[0])) if y.k == 'ld' and y.a[1] in ('float', 'double') and (W.base(y.a[0]) or y).k == 'arg' and W.j['args'][W.base(y.a[0]).a[1]]['ty'] == 'ptr'}
                if not idx or not oris:
                    continue
                where = W.where(s)
                n += 1
                hits = []
                for D, E_, strict in gates(g):
                    if not any(y in idx for y in walk(D)):
                        continue
                    os_ = [strip(t) for t, sg in terms(D) if strip(t) in oris]
                    if os_:
                        hits.append((os_[0], E_))
                if not hits:
                    if any(a.k == 'eq0' and a.a[0].k in ('exitval', 'mu', 'ldv', 'after', 'opaque', 'callv') for a in B.support(g)):
                        c.skip(name, '%s: the condition under which the code is used was not opened' % where)
                    else:
                        c.ob('gate', name + '/code', where, False, 'the quantisation code %s is used although the value it decodes to was not compared with the original; condition: %s' % (show(x)[:120], B.show(g, 4)[:300]))
                    continue
                best = None
                for o, E_ in hits:
                    try:
                        ks = bd.of(E_, g, o, None, s)
                        bad = [q for q in ks if not okkind(W, q, o, expect)]
                        r = (0, '') if not bad else (3, ', '.join(describe(q) for q in bad))
                    except Unknown as u:
                        r = (1, str(u))
                    except Over as u:
                        r = (2, str(u))
                    best = r if best is None else min(best, r)
                if best[0] == 1:
                    c.skip(name, '%s: bound %s' % (where, best[1]))
                else:
                    c.ob('bound', name + '/code', where, best[0] == 0, 'the bound the decoded value of a code is compared with is not limited by the user\'s: ' + best[1])
    return n


def narrow(e, g):
    """e with the alternatives that g rules out removed, in sums"""
    def go(x):
        if x.k == 'part':
            live = [(v, h) for v, h in parts(x) if B.And(h, g)]
            return mkpart(live, x.a[1]) if live else x
        if x.k == 'fadd':
            return fadd(go(x.a[0]), go(x.a[1]))
        if x.k == 'fneg':
            return fneg(go(x.a[0]))
        if x.k in ('fpext', 'fptrunc'):
            return mk(x.k, go(x.a[0]), *x.a[1:])
        return x
    return go(e)


def okkind(W, q, o, expect):
    if q[0] == 'cell':
        return 'cell' in expect and strip(o).k == 'ld' and aligned(W, q[2], 8, strip(o).a[0], nbytes_of(strip(o).a[1]))
    return q[0] in expect


def describe(q):
    return {'user': 'the absolute bound %s where a relative one is promised', 'rel': 'a bound relative to the value (%s) where an absolute one is promised', 'log': 'the bound log2(1 + %s) on plain values',
            'cell': 'an entry of the bound array %s for another element', 'relof': 'relative to %s'}[q[0]] % (show(q[1]) if not isinstance(q[1], str) else q[1])


def logstores(c, W, name, b):
    """the log-domain copy of a component: log2 |x| of the element with the same index, or a constant for a zero"""
    for s in W.stores():
        a = W.X(s['ops'][1])
        if W.base(a) is not b or s.get('sty') not in ('float', 'double'):
            continue
        for v, h in parts(W.X(s['ops'][0])):
            z = strip(v)
            if z.k == 'f':
                pass
            elif z.k == 'call' and z.a[0] in ('log2', 'log2f') and strip(z.a[-1]).k == 'fabs':
                x = strip(strip(z.a[-1]).a[0])
                if x.k == 'ld':
                    c.ob('log', name + '/log', W.where(s), aligned(W, x.a[0], nbytes_of(x.a[1]), a, nbytes_of(s['sty'])), 'the logarithm of %s is stored for another element' % show(x)[:80])


def calls(c, W, name, expect):
    """codecs that hand an array of bounds to sz_compress_2d_with_eb"""
    bd = Bound(W)
    n = 0
    for i in W.calls(r'\bsz_compress_2d_with_eb<'):
        a = [W.X(o) for o in i['ops']]
        d, p = W.base(a[0]), W.base(a[1])
        where = W.where(i)
        n += 1
        try:
            ks = bd.content(p, i)
        except Unknown as u:
            c.skip(name, '%s: bounds %s' % (where, u))
            continue
        except Over as u:
            c.ob('bound', name + '/bound', where, False, 'the bounds handed to sz_compress_2d_with_eb are not limited by the user\'s: %s' % u)
            continue
        for q in ks:
            if q[0] == 'relof' and expect == 'relof':
                src = {d} if d is not None and d.k == 'arg' else source(W, d)
                c.ob('bound', name + '/bound', where, q[1] in src and q[2] is q[3], 'bounds of %s used for %s' % (show(q[1]), ', '.join(show(x) for x in src)))
            else:
                c.ob('bound', name + '/bound', where, q[0] == expect, describe(q))
        if expect == 'log' and d is not None and d.k == 'mem':
            logstores(c, W, name, d)
    c.unit(name, calls=n)
