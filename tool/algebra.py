"""C10: the bound of a cell is a certificate.

Every function that bounds the change of a simplex's values is evaluated to a term (expr.py) whose leaves are fractions
|N| / (|D1| + .. + |Dk|) or |r(P) - r(Q)| / (r(P) + r(Q)).  A fraction keeps the sign of the polynomial N (of P - Q) exactly
when the D's are the terms of N's change (when P and Q collect the positive and the negative terms of N).  A case analysis over
the conditions of the term (BDD) then asks whether the bound is, in every case, at most the fractions of some certificate:
  * outside: some barycentric weight Mi/M lies outside [0,1], and Mi and M - Mi keep their signs;
  * every:   all weights keep their signs (and, where the function promises it, the eigenvalues keep their kind);
  * side:    one component has the same sign in every vertex and its relative change is at most 1.
"""
import re
from fractions import Fraction
from itertools import combinations, permutations, product
from expr import *
from fn import Stop


class Odd(Exception):
    pass


# ------------------------------------------------------------- polynomials over opaque atoms
def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mul(p, q):
    r = {}
    if len(p) * len(q) > 40000:
        raise Odd('polynomial too large')
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def con(c):
    return {(): Fraction(c)} if c else {}


def var(e):
    return {(e,): Fraction(1)}


def scale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def key(p):
    """polynomial up to sign and scale"""
    if not p:
        return frozenset()
    c = p[min(p, key=lambda m: tuple(x.id for x in m))]
    return frozenset((m, v / c) for m, v in p.items())


def deriv(p, x):
    r = {}
    for m, c in p.items():
        n = m.count(x)
        if n:
            k = list(m)
            k.remove(x)
            k = tuple(k)
            r[k] = r.get(k, 0) + c * n
    return r


class Alg:
    def __init__(self):
        self.memo = {}

    def poly(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self.poly_(e)
        return r

    def poly_(self, e):
        k = e.k
        if k == 'f':
            return con(Fraction(e.a[0]))
        if k == 'fadd':
            return add(self.poly(e.a[0]), self.poly(e.a[1]))
        if k == 'fneg':
            return scale(self.poly(e.a[0]), -1)
        if k == 'fmul':
            return mul(self.poly(e.a[0]), self.poly(e.a[1]))
        if k in ('fpext', 'fptrunc'):
            return self.poly(e.a[0])
        if k == 'fdiv':
            d = self.poly(e.a[1])
            if list(d) == [()]:
                return scale(self.poly(e.a[0]), 1 / d[()])
            n = self.poly(e.a[0])
            if not n or not d:
                return n if d else var(e)
            return scale(var(mk('quot', key2(n), key2(d))), lead(n) * lead(d))
        if k == 'fabs':
            p = self.poly(e.a[0])
            if list(p) in ([], [()]):
                return con(abs(p.get((), 0)))
            return var(mk('abs', key2(p)))
        if k == 'i2f' and intval(e.a[0]) is not None:
            return con(intval(e.a[0]))
        return var(e)


def lead(p):
    return 1 if p[min(p, key=lambda m: tuple(x.id for x in m))] > 0 else -1


def key2(p):
    """sign-free name of a polynomial"""
    s = lead(p)
    return tuple(sorted(((tuple(x for x in m), c * s) for m, c in p.items()), key=lambda t: (tuple(x.id for x in t[0]), t[1])))


def covers(want, D):
    """|D1| + .. + |Dk| is at least the sum of |want|, term by term"""
    left = list(D)
    rest = []
    for w in want:
        m = [d for d in left if key2(d) == key2(w)]
        if m:
            left.remove(m[0])
        else:
            rest.append(w)
    for w in rest:
        here = [d for d in left if any(m in w for m in d)]
        if len(here) > 7:
            return False
        for ss in product((1, -1, 0), repeat=len(here)):
            t = {}
            for s, d in zip(ss, here):
                if s:
                    t = add(t, d, s)
            if t == w:
                for s, d in zip(ss, here):
                    if s:
                        left.remove(d)
                break
        else:
            return False
    return True


def addends(e):
    if e.k in ('fpext', 'fptrunc'):
        return addends(e.a[0])
    if e.k == 'fadd':
        return addends(e.a[0]) + addends(e.a[1])
    if e.k == 'fneg' and e.a[0].k in ('fadd',):
        return [fneg(x) for x in addends(e.a[0])]
    return [e]


class Cell(Alg):
    """certificates of one bound function"""

    def __init__(self, F, dim, mode, roles, coords=None, adj=None):
        Alg.__init__(self)
        self.F = F
        self.dim = dim                # 2 or 3
        self.mode = mode              # 'rel' (last vertex, relative), 'abs' (last vertex), 'all' (every vertex, relative)
        self.roles = roles            # roles[c][v]: argument that holds component c of vertex v
        self.n = dim + 1
        self.wild = 0                 # what an unanalysable value certifies
        self.known = set()            # loads with a meaning
        self.bad = []                 # fractions that are no certificate
        self.fr = {}                  # name -> what a fraction keeps
        self.free_cond = {}           # name of a polynomial -> condition under which its sign cannot change
        self.moving = [roles[c][v] for c in range(dim) for v in range(self.n) if mode == 'all' or v == dim]
        self.M = []
        for i in range(self.n):
            vs = [v for v in range(self.n) if v != i]
            p = {}
            for perm in permutations(range(dim)):
                s = 1
                for a, b in combinations(perm, 2):
                    if a > b:
                        s = -s
                t = con(s)
                for c in range(dim):
                    t = mul(t, var(roles[c][vs[perm[c]]]))
                p = add(p, t)
            self.M.append(scale(p, (-1) ** i))
        self.det = {}
        for p in self.M:
            self.det = add(self.det, p)
        self.names = {}
        for i, p in enumerate(self.M):
            self.names[key(p)] = 'M%d' % i
            self.names.setdefault(key(add(self.det, p, -1)), 'M-M%d' % i)
        self.names[key(self.det)] = 'M'

    # -------------------------------------------------------- fractions
    def change(self, p):
        """the terms of p's change, grouped by moving value"""
        out = []
        for x in self.moving:
            d = deriv(p, x)
            if self.mode != 'abs':
                d = mul(d, var(x))
            if d:
                out.append(d)
        return out

    def fixed(self, p):
        return not any(x in m for m in p for x in self.moving)

    def name(self, p):
        return self.names.get(key(p)) or 'sign of ' + self.text(p)

    def text(self, p):
        return ' '.join('%s%s' % ('' if c == 1 else '-' if c == -1 else '%s*' % c, '*'.join(show(x)[:12] for x in m) or '1') for m, c in list(p.items())[:8]) + (' ..' if len(p) > 8 else '')

    def abssum(self, e):
        """[D1, ..] of |D1| + .. + |Dk|"""
        out = []
        for x in addends(e):
            if x.k != 'fabs':
                return None
            out.append(self.poly(x.a[0]))
        return out

    def fraction(self, e):
        """name of the polynomial whose sign e keeps, None for a division that is not of that form"""
        r = self.fr.get(e, 0)
        if r == 0:
            r = self.fr[e] = self.fraction_(e)
        return r

    def fraction_(self, e):
        num, den = self.absform(bare(e.a[0])), e.a[1]
        D = self.abssum(den)
        if D is not None:
            N = self.poly(num.a[0] if num.k == 'fabs' else num)
            want = self.change(N)
            D = [d for d in D if d]
            if not covers(want, D):
                self.bad.append('|%s| is divided by the sum of |%s|, but it changes by %s' % (
                    self.text(N), '|, |'.join(self.text(d) for d in D), ', '.join(self.text(d) for d in want) or 'nothing'))
                return None
            self.note(N, D, [])
            return self.name(N)
        r = self.rooted(num, den)
        if r:
            return r
        return self.quadratic(num, den)

    def absform(self, e):
        """|x| written as a choice"""
        if e.k != 'part' or len(e.a[0]) != 2 or e.a[1] == 'min':
            return e
        (v, g), (w, h) = e.a[0]
        at = list(B.support(g))
        if len(at) != 1 or at[0].k != 'flt' or add(self.poly(v), self.poly(w)) != {}:
            return e
        if B.restrict(g, at[0], 1) != 1:
            v = w
        d = add(self.poly(at[0].a[1]), self.poly(at[0].a[0]), -1)
        return fabs_(bare(v)) if key2p(d) == key2p(self.poly(v)) else e

    def note(self, N, D, sides):
        self.free_cond.setdefault(key(N), (D, sides))

    def rooted(self, num, den):
        """|r(P) - r(Q)| / (r(P) + r(Q))"""
        if num.k != 'fabs':
            return None
        den, dif = bare(den), bare(num.a[0])
        if den.k != 'fadd' or dif.k != 'fadd':
            return None
        a, b = den.a, dif.a
        p, q = self.root(a[0]), self.root(a[1])
        if p[0] != q[0]:
            return None
        if sorted(x.id for x in a) not in (sorted((b[0].id, fneg(b[1]).id)), sorted((fneg(b[0]).id, b[1].id))):
            self.bad.append('the numerator is not the difference of the two roots in the denominator')
            return None
        P, Q = self.signed(self.unroll(p[1])), self.signed(self.unroll(q[1]))
        if P == 0 or Q == 0:
            return None
        if P is None or Q is None:
            raise Odd('sum of positive terms: ' + show(p[1])[:120])
        if sorted(map(str, (sorted(t.items(), key=str) for t in P))) != sorted(map(str, (sorted(scale(t, -1).items(), key=str) for t in Q))):
            self.bad.append('the positive and the negative side are not made of the same terms')
            return None
        N = {}
        for t in P:
            N = add(N, t)
            ms = list(t)
            # one product of moving values per term, so that the term scales as a whole
            mv = {tuple(x for x in m if x in self.moving) for m in ms}
            if len(mv) != 1 or len(next(iter(mv))) > p[0]:
                self.bad.append('%s grows by more than the degree %d that the root assumes' % (self.text(t), p[0]))
                return None
        if self.mode != 'all':
            raise Odd('roots in a bound of one vertex')
        self.note(N, [], [p[1], q[1]])
        return self.name(N)

    # loops over a few coefficients, run on their terms
    def unroll(self, e):
        if not any(x.k == 'exitval' for x in walk(e, None, True)):
            return e
        F = self.F
        env, cells = {}, {}
        for i in F.ins.values():
            if i['op'] == 'call' and re.search(r'::vector\(unsigned long, ', i.get('dem', '')):
                n = intval(F.X(i['ops'][1]))
                v = F.X(i['ops'][0])
                if n is not None and v.k == 'alloca':
                    sz = 4 if 'vector<float' in i['dem'] else 8
                    env[mk('vecbytes', *v.a[:2])] = I(n * sz)
        for i in F.ins.values():
            if i['op'] == 'store':
                p = F.X(i['ops'][1])
                b = [x for x in patoms(p) if x.k == 'vecdata']
                if len(b) == 1:
                    o = intval(psub(p, b[0]))
                    if o is None or (b[0], o) in cells:
                        raise Odd('store into a coefficient array')
                    cells[b[0], o] = F.X(i['ops'][0])

        def load(r):
            if r.k == 'ld':
                b = [x for x in patoms(r.a[0]) if x.k == 'vecdata']
                if len(b) == 1:
                    return cells.get((b[0], intval(psub(r.a[0], b[0]))))
            return None
        steps = [0]

        def ev(x, env):
            outer, st, seen = [], [x], set()
            while st:
                y = st.pop()
                if y in seen:
                    continue
                seen.add(y)
                if y.k == 'exitval' and y.a[0] == F.name:
                    outer.append(y)
                    continue
                for z in y.a:
                    st += [w for w in (z if isinstance(z, tuple) else (z,)) if isinstance(w, E)]
                if y.k == 'part':
                    st += [v for v, g in y.a[0]]
            if outer:
                env = dict(env)
                for y in outer:
                    env[y] = ev(y.a[2], run(y.a[1], env))
            return subst(x, env, None, load)

        def run(L, env):
            Lp = F.loops[L]
            if len(Lp.exits) != 1:
                raise Odd('a loop with several ways out')
            mus = [mk('mu', F.name, L, i['id']) for i in F.blk[Lp.header]['ins'] if i['op'] == 'phi' and i['ty'] in ('float', 'double')]
            ph = {m: F.phi_parts(m) for m in mus}
            state = {m: ev(ph[m][0], env) for m in mus}
            g = F.branch(*Lp.exits[0])
            k = 0
            while True:
                steps[0] += 1
                if steps[0] > 400:
                    raise Odd('a loop of many steps')
                here = dict(env)
                here.update(state)
                here[Lp.iv] = I(k)
                c = subst(g, here, None, load) if g > 1 else g
                if c == 1:
                    return here
                if c != 0:
                    raise Odd('a loop whose end depends on data')
                state = {m: ev(ph[m][1], here) for m in mus}
                k += 1
        return ev(e, env)

    def root(self, e):
        while e.k in ('fpext', 'fptrunc'):
            e = e.a[0]
        if e.k == 'call' and e.a[0] in ('sqrt', 'asqrt1', 'cbrt', 'acbrt1'):
            return (2 if 'sqrt' in e.a[0] else 3), e.a[2]
        return 1, e

    def signed(self, e):
        """the terms whose positive parts e adds up"""
        out = []
        for x in addends(e):
            t = self.pospart(x)
            if t is None or t == 0:
                return t
            if t:
                out.append(t)
        return out

    def pospart(self, x):
        """t with x = max(t, 0)"""
        s = 1
        while x.k in ('fpext', 'fptrunc', 'fneg'):
            if x.k == 'fneg':
                s = -s
            x = x.a[0]
        if x.k == 'f' and x.a[0] == 0:
            return {}
        zero = mk('f', 0.0)
        if x.k == 'max' and zero in x.a[0] and len(x.a[0]) == 2 and s > 0:
            return self.poly([y for y in x.a[0] if y is not zero][0])
        if x.k == 'part' and len(x.a[0]) == 2:
            it = {v: g for v, g in x.a[0]}
            if zero not in it:
                return None
            t = [v for v in it if v is not zero][0]
            p = scale(self.poly(t), s)
            if x.a[1] == 'min':
                if it[zero] != 1 or it[t] != 1:
                    return None
                if s < 0:
                    return p                       # -min(t', 0) = max(-t', 0)
                self.bad.append('a term is added with the wrong sign')
                return 0
            g = it[t]
            at = list(B.support(g))
            if len(at) != 1 or at[0].k != 'flt':
                return None
            l, r = at[0].a
            on = B.restrict(g, at[0], 1) == 1
            # t is chosen where it is positive
            d = add(self.poly(r), self.poly(l), -1)
            if not on:
                d = scale(d, -1)
            if key2p(d) == key2p(p):
                return p
            w = dict(d)
            w.pop((), None)
            if key(w) == key(p):
                self.bad.append('the terms are not told apart by their sign')
                return 0
        return None

    def quadratic(self, num, den):
        """(-b + sqrt(b*b - 4*a*N)) / (2*a): smallest root of a*e*e + b*e + N, for N < 0"""
        xs = addends(num)
        sq = [x for x in xs if x.k == 'call' and x.a[0] == 'sqrt']
        if len(sq) != 1 or len(xs) < 2:
            return None
        b = {}
        D = []
        for x in xs:
            if x is not sq[0]:
                if x.k != 'fneg' or x.a[0].k != 'fabs':
                    return None
                D.append(self.poly(x.a[0].a[0]))
                b = add(b, self.poly(x.a[0]))
        a = scale(self.poly(den), Fraction(1, 2))
        q = self.poly(sq[0].a[2])
        N = self.disc
        if N is None:
            return None
        if add(add(q, mul(b, b), -1), scale(mul(a, self.disc), 4)) != {}:
            self.bad.append('the root is not that of a*e*e + b*e + (trace^2 - 4 det)')
            return None
        want = self.change(N)
        if sorted(str(key2(d)) for d in want) != sorted(str(key2(d)) for d in D if d):
            self.bad.append('the linear coefficient of the discriminant is not its change')
            return None
        t = {}
        for d in self.change(self.trace):
            t = add(t, var(mk('abs', key2(d))))
        if a != mul(t, t):
            self.bad.append('the quadratic coefficient of the discriminant is not the square of the change of the trace')
            return None
        self.note(N, D, [])
        return self.name(N)

    disc = trace = None

    def jacobian(self, c):
        """c: polynomials (y1-y2)/D, -(y0-y2)/D, -(x1-x2)/D, (x0-x2)/D"""
        u, v = self.roles
        d = lambda x, i: add(var(x[i]), var(x[2]), -1)
        ux = add(mul(c[0], d(u, 0)), mul(c[1], d(u, 1)))
        vx = add(mul(c[0], d(v, 0)), mul(c[1], d(v, 1)))
        uy = add(mul(c[2], d(u, 0)), mul(c[3], d(u, 1)))
        vy = add(mul(c[2], d(v, 0)), mul(c[3], d(v, 1)))
        self.trace = add(ux, vy)
        self.jdet = add(mul(ux, vy), mul(uy, vx), -1)
        self.disc = add(mul(self.trace, self.trace), scale(self.jdet, 4), -1)
        self.names[key(self.trace)] = 'trace'
        self.names[key(self.disc)] = 'discriminant'

    # -------------------------------------------------------- what a value is at most
    def K(self, e):
        """{name: condition under which e <= the bound that keeps that sign}"""
        if not hasattr(self, '_K'):
            self._K = {}
        r = self._K.get(e)
        if r is None:
            r = self._K[e] = self.K_(e)
        return r

    def K_(self, e):
        if e.k in ('fpext', 'fptrunc'):
            return self.K(e.a[0])
        if e.k == 'f':
            r = {}
            if e.a[0] <= 0:
                r['0'] = 1
            if e.a[0] <= 1:
                r['1'] = 1
            return r
        if e.k == 'undef':
            return {'0': 1}
        if e.k == 'part':
            r = {}
            for v, g in e.a[0]:
                for n, c in self.K(v).items():
                    r[n] = B.Or(r.get(n, 0), B.And(g, c))
                # a value is also at most what it was compared with
                for at in B.support(g):
                    if at.k == 'flt':
                        for w, o, h in ((at.a[0], at.a[1], B.atom(at)), (at.a[1], at.a[0], B.Not(B.atom(at)))):
                            if bare(w) is bare(v) and o is not e:
                                for n, c in self.K(o).items():
                                    r[n] = B.Or(r.get(n, 0), B.And(g, h, c))
            return r
        if e.k == 'max':
            r, left = {}, 1
            for n, v in enumerate(e.a[0]):
                ch = B.And(left, B.atom(mk('choice', e, n))) if n < len(e.a[0]) - 1 else left
                left = B.And(left, B.Not(ch))
                for m, c in self.K(v).items():
                    r[m] = B.Or(r.get(m, 0), B.And(ch, c))
            return r
        if e.k == 'fdiv':
            n = self.fraction(e)
            if n:
                return {n: 1}
            if any(x.k in ('mu', 'exitval', 'callv', 'ld', 'call') and not (x.k == 'call' and x.a[0] in ('sqrt', 'cbrt', 'asqrt1', 'acbrt1')) for x in walk(e, None, True) if x not in self.known):
                return {'?': 1}
            for k in (1, 0):
                x = bare(e.a[k])
                if x.k == 'part' and x.a[1] != 'min':
                    r = {}
                    for v, g in x.a[0]:
                        for m, c in self.K(fdiv(e.a[0], v) if k else fdiv(v, e.a[1])).items():
                            r[m] = B.Or(r.get(m, 0), B.And(g, c))
                    return r
                if x.k == 'part':
                    return {'?': 1}
            return {}
        if e.k == 'fmul' and len(e.a) == 2:
            for x, y in (e.a, e.a[::-1]):
                if x.k == 'f' and 0 <= x.a[0] <= 1:
                    return self.K(y)
        if e.k == 'fadd' and len(e.a) == 2:
            for x, y in (e.a, e.a[::-1]):
                if x.k == 'f' and x.a[0] <= 0:
                    return self.K(y)
        if e.k in ('call', 'callv', 'mu', 'exitval', 'ld', 'derive', 'i2f', 'bits'):
            return {'?': 1}
        return {}

    def free(self, p, atoms):
        """condition under which the sign of p cannot change"""
        if self.fixed(p):
            return 1
        r = 0
        D, sides = self.free_cond.get(key(p), ([], []))
        if D:
            g = 1
            for d in D:
                h = 0
                for at, q in atoms:
                    if q and key(q) == key(d):
                        h = B.Or(h, B.atom(at))
                g = B.And(g, h)
            r = B.Or(r, g)
            s = {}
            for d in D:
                s = add(s, var(mk('abs', key2(d))))
            for at, q in atoms:
                if q and key(q) == key(s):
                    r = B.Or(r, B.atom(at))
        for x in sides:
            for at, q in atoms:
                if at.a[0] is x or q and key(q) == key(self.poly(x)):
                    r = B.Or(r, B.atom(at))
        return r

    def blast(self, c):
        """conditions on sums of comparison bits, as conditions on the comparisons"""
        def f(at):
            if at.k != 'eq0':
                return B.atom(at)
            m = pmap(at.a[0])
            bits_ = []
            for k in m:
                if k and not (len(k) == 1 and k[0].k in ('bool', 'b2i', 'cond', 'int')):
                    return B.atom(at)
                if k:
                    bits_.append(k[0])
            if not bits_ or len(bits_) > 8:
                return B.atom(at)
            r = 0
            for vs in product((0, 1), repeat=len(bits_)):
                if m.get((), 0) + sum(m[(x,)] * v for x, v in zip(bits_, vs)) == 0:
                    r = B.Or(r, B.And(*[x.a[0] if v else B.Not(x.a[0]) for x, v in zip(bits_, vs)]))
            return r
        return B.map(c, f, {})

    def need(self, e, kinds):
        """condition under which e is a certificate"""
        K = self.K(e)
        sup = set()
        for c in K.values():
            sup |= B.support(c)
        eqs = [(a, self.poly(a.a[0])) for a in sup if a.k == 'feq0']

        def kept(p):
            n = self.name(p)
            return B.Or(K.get(n, 0), K.get('0', 0), self.wild and K.get('?', 0), self.free(p, eqs))
        out = []
        for i, p in enumerate(self.M):
            o = 0
            for a in sup:
                if a.k != 'flt':
                    continue
                l, r = a.a
                for q, one, lt in ((l, r, 1), (r, l, 0)):
                    s = 1
                    while q.k in ('fpext', 'fptrunc'):
                        q = q.a[0]
                    if q.k == 'fdiv' and self.poly(one) == con(1):
                        x, y = self.poly(q.a[0]), self.poly(q.a[1])
                        if y and key(y) == key(p) and any(x == scale(self.det, s) and y == scale(p, s) for s in (1, -1)):
                            o = B.Or(o, B.atom(a) if lt else B.Not(B.atom(a)))
            for a, q in eqs:
                if q and key(q) == key(p):
                    o = B.And(o, B.Not(B.atom(a)))
            out.append(o)
        r = B.Or(K.get('0', 0), self.wild and K.get('?', 0))
        for o, p in zip(out, self.M):
            r = B.Or(r, B.And(o, kept(p), kept(add(self.det, p, -1))))
        every = 1
        for p in self.M:
            every = B.And(every, kept(p))
        if kinds:
            neg, pos = 0, 0
            for a in sup:
                if a.k != 'flt':
                    continue
                d = add(self.poly(a.a[1]), self.poly(a.a[0]), -1)         # a: d > 0
                d0 = [x for x in a.a if x.k == 'f' and x.a[0] == 0]
                if d0 and key2p(d) == key2p(self.disc):
                    pos = B.Or(pos, B.atom(a))
                if d0 and key2p(d) == key2p(self.jdet):
                    neg = B.Or(neg, B.Not(B.atom(a)))
                if d0 and key2p(scale(d, -1)) == key2p(self.jdet):
                    neg = B.Or(neg, B.atom(a))
            every = B.And(every, B.Or(neg, B.And(kept(self.disc), B.Or(kept(self.trace), pos))))
        r = B.Or(r, every)
        if self.mode != 'abs':
            side = 0
            for c in range(self.dim):
                for s in (0, 1):
                    g = 1
                    for x in self.roles[c]:
                        z = mk('f', 0.0)
                        g = B.And(g, flt(z, x) if s else flt(x, z))
                    side = B.Or(side, g)
            r = B.Or(self.blast(r), B.And(self.blast(K.get('1', 0)), side))
        return r, K


def bare(e):
    while e.k in ('fpext', 'fptrunc'):
        e = e.a[0]
    return e


def key2p(p):
    """polynomial up to positive scale"""
    if not p:
        return ()
    s = abs(p[min(p, key=lambda m: tuple(x.id for x in m))])
    return tuple(sorted(((m, c / s) for m, c in p.items()), key=lambda t: tuple(x.id for x in t[0])))


def counter(c):
    """an assignment that makes c false"""
    out = []
    while c > 1:
        v, lo, hi = B.nodes[c]
        if lo != 1:
            out.append('!(%s)' % show(B.atoms[v])[:70])
            c = lo
        else:
            out.append('%s' % show(B.atoms[v])[:70])
            c = hi
    return ' & '.join(out)


# ------------------------------------------------------------- the bound functions of the library
def shape(F, f):
    """(dimension, mode) of a bound function, from its name and its arguments"""
    n = len([x for x in f['args'] if x['ty'] in ('float', 'double')])
    name = F.short
    mode = 'abs' if name.endswith('_abs') else 'rel' if 'online' in name else 'all'
    if n == 12 and '3d' in name:
        return 3, mode
    if n == 12 and mode == 'all' or n == 6 and mode != 'all':
        return 2, mode
    raise Odd('a bound function of %d values' % n)


def corners(C, F, v, dim, mode):
    """the matrix that turns differences of a triangle's values into their derivatives"""
    a = F.args
    if dim == 2 and mode == 'rel' and len(a) > 6:
        sz = 4 if F.j['args'][0]['ty'] == 'float' else 8
        at = {intval(psub(x.a[0], a[6])): x for x in walk(v, None, True) if x.k == 'ld'}
        for k in range(4):
            if sz * k not in at:
                return False
        C.known = set(at.values())
        C.jacobian([var(at[sz * k]) for k in range(4)])
        return True
    if dim == 2 and mode == 'all':
        x, y = a[6:9], a[9:12]
        d = lambda p, q: fadd(p, fneg(q))
        det = fadd(fmul(d(x[0], x[2]), d(y[1], y[2])), fneg(fmul(d(x[1], x[2]), d(y[0], y[2]))))
        C.jacobian([C.poly(q) for q in (fdiv(d(y[1], y[2]), det), fneg(fdiv(d(y[0], y[2]), det)), fneg(fdiv(d(x[1], x[2]), det)), fdiv(d(x[0], x[2]), det))])
        return True
    return False


def cases(C, c):
    """one case in which the condition fails, readable"""
    out = []
    while c > 1:
        v, lo, hi = B.nodes[c]
        at = B.atoms[v]
        no = lo != 1
        c = lo if no else hi
        s = []
        for x in at.a:
            if isinstance(x, E):
                x = bare(x)
                try:
                    s.append(C.name(C.poly(x.a[0])) + ' / ' + C.name(C.poly(x.a[1])) if x.k == 'fdiv' else '0' if x.k == 'f' and x.a[0] == 0 else C.name(C.poly(x)))
                except Odd:
                    s.append(show(x)[:60])
        op = {'flt': ' < ', 'feq': ' == '}.get(at.k)
        out.append(('not ' if no else '') + '(' + (op.join(s) if op else ', '.join(s) + (' == 0' if at.k == 'feq0' else '')) + ')')
    return ' and '.join(x.replace('sign of ', '')[:160] for x in out[:14])


def audit(c, mod, name):
    F = mod.fn(name)
    where = F.short
    try:
        dim, mode = shape(F, F.j)
        a = F.args
        C = Cell(F, dim, mode, [a[k * (dim + 1):(k + 1) * (dim + 1)] for k in range(dim)])
        rets = [b['ins'][-1] for b in F.blk.values() if b['ins'][-1]['op'] == 'ret']
        if len(rets) != 1:
            raise Odd('%d returns' % len(rets))
        i = rets[0]
        v = F.X(i['ops'][0])
        kinds = dim == 2 and mode != 'abs'
        if kinds and not corners(C, F, v, dim, mode):
            c.ob('kind', where + '/kind', F.where(i), False, 'the derivatives of the cell are not used: the kind of its critical point is not kept')
            kinds = False
        r, K = C.need(v, kinds)
        if r != 1 and K.get('?', 0):
            C.wild = 1
            if C.need(v, kinds)[0] == 1:
                raise Odd('a quotient that is not analysed')
    except (Odd, Stop, RecursionError, KeyError, IndexError, TypeError, OverflowError) as e:
        c.skip(where, '%s %s' % (type(e).__name__, e))
        return None
    for n in sorted(K):
        if n not in ('0', '1', '?'):
            c.ob('certificate', where + '/fraction', F.where(i), True, 'bounded by the change that keeps the sign of %s' % n)
    c.ob('cases', where + '/cases', F.where(i), r == 1, 'the bound certifies nothing when ' + cases(C, r) + ''.join('; ' + x for x in sorted(set(C.bad))[:2]) if r != 1 else 'a certificate in every case')
    return C, len(K), len(set().union(*[B.support(x) for x in K.values()]) if K else ())
