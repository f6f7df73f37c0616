"""Log-domain codecs: how logarithms, signs, zeros and verbatim values become output values, and what the compressor put in for them."""
from fractions import Fraction
from expr import *
from fn import Stop
from pair import Pair, Bad, fold, theory_of, all_atoms

ZERO = mk('f', 0.0)


def unmask(e):
    """32-bit element numbers: grids have fewer than 2^32 values"""
    return subst(e, {}, {}, lambda x: ([y for y in x.a if intval(y) != 4294967295] or [None])[0] if x.k == 'and' and len(x.a) == 2 and 4294967295 in (intval(x.a[0]), intval(x.a[1])) else None)


def calls_of(e, name):
    return [x for x in walk(e) if x.k == 'call' and x.a[0] == name]


class Final:
    def __init__(self, p, c, key):
        self.p, self.c, self.key = p, c, key
        self.R, self.W = p.R, p.W
        self.roles = {}          # reader output base -> number of the component
        self.find_outputs()

    def ob(self, rule, where, ok, msg=''):
        return self.c.ob(rule, self.key, where, ok, msg)

    def find_outputs(self):
        R = self.R
        n = 0
        for k, a in enumerate(R.args):
            if R.j['args'][k]['ty'] != 'ptr' or k == 0:
                continue
            vals = []
            for i in R.stores():
                q = R.X(i['ops'][1])
                if q is a and i['sty'] == 'ptr':
                    vals.append(R.X(i['ops'][0]))
            if vals:
                for v in vals:
                    self.roles.setdefault(v, n)
                self.roles.setdefault(mk('ld', a, 'ptr'), n)
                n += 1
        if not n:
            for b in R.order:
                for i in R.blk[b]['ins']:
                    if i['op'] == 'ret' and i['ops']:
                        self.roles[R.X(i['ops'][0])] = 0
        self.nout = max(1, n)

    def base(self, a):
        for m, k in pmap(a).items():
            if len(m) == 1 and k == 1 and m[0] in self.roles:
                return m[0]
        return None

    def groups(self):
        """(loop, component, cell address, value, stores) of the loops that turn logarithms into values"""
        R = self.R
        by = {}
        for s in R.stores():
            if s['sty'] not in ('float', 'double'):
                continue
            a = unmask(R.X(s['ops'][1]))
            for x, _ in parts(a):
                b = self.base(x)
                if b is not None:
                    L = R.inner[s['b']]
                    by.setdefault((L, x), (b, []))[1].append((a, unmask(R.X(s['ops'][0])), R.pc(s['b'], L), s))
        out = []
        for (L, t), (b, st) in by.items():
            v = fold([x[:3] for x in st], t, mk('ld', t, st[0][3]['sty']))
            out.append((L, self.roles[b], t, b, v, st))
        return out

    # ---------------------------------------------------------------- compressor side
    def flat_cells(self, B):
        """[(loop, index of the cell in terms of its counter, value)] of the one-level loops that fill the local buffer B, in order; None if filled otherwise"""
        W = self.W
        by = {}
        for s in W.stores():
            a = W.X(s['ops'][1])
            if W.base(a) is not B:
                continue
            L = W.inner[s['b']]
            if L < 0 or W.loops[L].parent >= 0:
                continue
            by.setdefault(L, []).append((a, W.X(s['ops'][0]), W.pc(s['b'], L), s))
        out = []
        for L, st in by.items():
            ts = {x for a, v, g, s in st for x, _ in parts(a)}
            if len(ts) == 1:
                t = ts.pop()
                out.append((L, t, st))
        return sorted(out, key=lambda x: W.order.index(W.loops[x[0]].header))

    def value_after(self, B, cells, default):
        """content of element n (a symbol) of B after the given loops, in order"""
        W = self.W
        n = mk('sym', 'n')
        cur, first = default, True
        for L, t, st in cells:
            iv = W.loops[L].iv
            d = psub(t, B)
            m = pmap(d)
            if list(m) != [(iv,)]:
                raise Stop('%s: a table is not filled element by element' % W.short)
            size = int(m[(iv,)])
            env = {iv: n}
            cell = iadd(B, imul(I(size), n))
            old = cur if not first else mk('ld', cell, st[0][3]['sty'])
            v = subst(fold([x[:3] for x in st], t, mk('old')), env)
            cur = subst(v, {mk('old'): old, mk('ld', cell, st[0][3]['sty']): old})
            first = False
        return cur

    def datum(self, v):
        """(data argument, the load of element n of it) a table value depends on"""
        W = self.W
        c = set()
        for x in all_terms(v):
            if x.k == 'ld' and x.a[1] in ('float', 'double'):
                b = W.base(x.a[0])
                if b is not None and b.k == 'arg' and any(m == (mk('sym', 'n'),) for m in pmap(psub(x.a[0], b))):
                    c.add((b, x))
        return c

    def zeroed(self, B):
        W = self.W
        return any(W.base(W.X(i['ops'][0])) is B and intval(W.X(i['ops'][1])) == 0 for i in W.calls(r'memset'))

    def signs(self):
        """tape item of a bit map -> (data argument, element size ok, bit when positive, bit when negative)"""
        W, p = self.W, self.p
        out = {}
        for it in p.tape.items:
            if it.kind != 'bits':
                continue
            B = it.src
            pos = W.order.index(it.ins['b'])
            cells = [c for c in self.flat_cells(B) if W.order.index(W.loops[c[0]].header) < pos]
            if not cells:
                continue
            # a table that is reused: only the loops that start after the previous use
            prev = [W.order.index(o.ins['b']) for o in p.tape.items if o.kind == 'bits' and o.src is B and W.order.index(o.ins['b']) < pos]
            prev += [-1]
            mine = [c for c in cells if W.order.index(W.loops[c[0]].header) > max(prev)] or cells[-1:]
            try:
                v = self.value_after(B, mine, I(0))
            except Stop:
                continue
            if self.zeroed(B):
                cell = iadd(B, mk('sym', 'n'))
                v = subst(v, {}, {}, lambda x: I(0) if x.k == 'ld' and W.base(x.a[0]) is B else None)
            ds = self.datum(v)
            if len(ds) != 1:
                out[it] = (None, v, None, None, None)
                continue
            a, d = ds.pop()
            out[it] = (a, v, self.truth(v, flt(ZERO, d), d), self.truth(v, flt(d, ZERO), d), d)
        return out

    def truth(self, v, P, d):
        """whether v is non-zero for every datum with sign condition P: True, False, or None"""
        P = B.And(P, theory_of(v, P), B.Not(fcmp('oeq', d, ZERO)))
        for q in (flt(ZERO, d), flt(d, ZERO)):
            if q != P and B.And(P, q) and not B.implies(P, q):
                P = B.And(P, B.Not(q))
        r = set()
        for x, g in parts(v):
            g = B.And(g, P)
            if not g:
                continue
            k = intval(x)
            if k is not None:
                r.add(k != 0)
            elif x.k == 'b2i':
                if B.implies(g, x.a[0]):
                    r.add(True)
                elif not B.And(g, x.a[0]):
                    r.add(False)
                else:
                    return None
            else:
                return None
        return r.pop() if len(r) == 1 else None

    def counterexample(self, v, d):
        """two non-zero data of one sign with different bits, when the bit depends on nothing but comparisons of the datum with constants"""
        cs = set()
        for x in all_terms(v):
            if x.k == 'f' and x.a[0] == x.a[0] and abs(x.a[0]) < 1e300:
                cs.add(float(x.a[0]))
        for s in (1, -1):
            seen = {}
            for c in sorted(cs | {1.0}, key=abs):
                for q in {c, -c, c * (1 + 2 ** -20), c * (1 - 2 ** -20), -c * (1 + 2 ** -20), -c * (1 - 2 ** -20), 2.0 ** -120 * s, 2.0 ** 120 * s}:
                    if q * s <= 0:
                        continue
                    try:
                        seen.setdefault(self.at(v, d, q) != 0, q)
                    except Stop:
                        return None
            if len(seen) > 1:
                return seen[True], seen[False]
        return None

    def at(self, v, d, q):
        """the value of v for the datum q"""
        def num(e):
            if e is d:
                return q
            if e.k == 'f':
                return e.a[0]
            if intval(e) is not None:
                return intval(e)
            if e.k in ('fpext', 'fptrunc'):
                return num(e.a[0])
            if e.k == 'fneg':
                return -num(e.a[0])
            if e.k == 'fabs':
                return abs(num(e.a[0]))
            if e.k == 'fadd':
                return num(e.a[0]) + num(e.a[1])
            if e.k == 'fmul':
                return num(e.a[0]) * num(e.a[1])
            if e.k == 'b2i':
                return 1 if cond(e.a[0]) else 0
            if e.k == 'part':
                for x, g in parts(e):
                    if cond(g):
                        return num(x)
            raise Stop('not a function of the datum')

        def cond(g):
            if g <= 1:
                return bool(g)
            P = 1
            for a in B.support(g):
                if a.k == 'flt':
                    t = num(a.a[0]) < num(a.a[1])
                elif a.k == 'feq':
                    t = num(a.a[0]) == num(a.a[1])
                elif a.k == 'feq0':
                    t = num(a.a[0]) == 0
                elif a.k == 'eq0':
                    t = num(a.a[0]) == 0
                else:
                    raise Stop('condition not a comparison')
                P = B.And(P, B.atom(a) if t else B.Not(B.atom(a)))
            return B.implies(P, g)
        return num(v)

    def logs(self):
        """data argument -> [(buffer, value of element n, datum)] for the tables of logarithms"""
        W = self.W
        out = {}
        bufs = {W.base(W.X(s['ops'][1])) for s in W.stores() if s['sty'] in ('float', 'double')}
        for b in bufs:
            if b is None or b.k != 'mem':
                continue
            cells = self.flat_cells(b)
            try:
                v = self.value_after(b, cells, ZERO) if cells else None
            except Stop:
                continue
            if v is None or not any(x.k == 'call' and x.a[0].startswith('log2') for x in all_terms(v)):
                continue
            ds = self.datum(v)
            if len(ds) > 1:
                inlog = set()
                for x in all_terms(v):
                    if x.k == 'call' and x.a[0].startswith('log2'):
                        inlog |= self.datum(x)
                ds = {d for d in ds if d in inlog}
            if len(ds) == 1:
                a, d = ds.pop()
                out.setdefault(a, []).append((b, v, d))
        return out


def strip(x):
    while x.k in ('fptrunc', 'fpext'):
        x = x.a[0]
    return x


ROOM = 2.0 ** -14       # rounding of a logarithm (at most 2^-17 for |log2| < 128 in single precision), with a margin


def leaves(x):
    """what a maximum is the maximum of"""
    x = strip(x)
    if x.k == 'max':
        out = set()
        for y in x.a[0]:
            out |= leaves(y)
        return out
    return {x}


def notneg(x):
    x = strip(x)
    if x.k == 'f':
        return x.a[0] >= 0
    if x.k == 'fabs':
        return True
    if x.k == 'max':
        return any(notneg(y) for y in x.a[0])
    if x.k in ('fmul', 'fadd', 'fdiv'):
        return all(notneg(y) for y in x.a)
    return False


def less(x):
    """(m, c, e) for x = m - c*e"""
    x = strip(x)
    if x.k == 'fadd':
        for y, w in (x.a, x.a[::-1]):
            w, neg = (w.a[0], True) if w.k == 'fneg' else (w, False)
            if w.k == 'fmul':
                for c, e in (w.a, w.a[::-1]):
                    if c.k == 'f':
                        return strip(y), (1 if neg else -1) * c.a[0], strip(e)
    return None


def flatten(v, P=1):
    """[(leaf, condition)] with gates, negations and rounding pulled apart, down to leaves without gates"""
    out = []
    for x, g in parts(v):
        g = B.And(g, P)
        if not g:
            continue
        y, neg = x, False
        while y.k in ('fptrunc', 'fpext', 'fneg'):
            neg ^= y.k == 'fneg'
            y = y.a[0]
        if y.k == 'part':
            out += [(fneg(z) if neg else z, h) for z, h in flatten(y, g)]
        else:
            out.append((fneg(y) if neg else y, g))
    return out


class Rule(Final):
    """the obligations"""

    def run(self):
        p, R, W = self.p, self.R, self.W
        signs, logs = self.signs(), self.logs()
        gs = [g for g in self.groups() if any(x.k == 'call' and x.a[0].startswith('exp') for x in all_terms(g[4]))]
        dat = [a for a in W.args if W.j['args'][a.a[1]]['ty'] == 'ptr']
        order = [a for a in dat if a in logs]
        loops = sorted({g[0] for g in gs})
        comps = {}
        for L, k, t, b, v, st in gs:
            comps.setdefault(k, []).append((L, t, b, v, st))
        if not gs or not order:
            self.c.skip(self.key, 'no loop that turns logarithms into values, or no table of logarithms, recognised')
            return 0
        where0 = R.where(gs[0][5][0][3])
        self.ob('components', where0, sorted(comps) == list(range(self.nout)) and len(order) == self.nout,
                '%d of %d output arrays are turned from logarithms into values' % (len(comps), max(self.nout, len(order))))
        for k in sorted(comps):
            if k < len(order):
                for L, t, b, v, st in comps[k]:
                    self.cell(k, order[k], signs, logs[order[k]], L, t, b, v, st)
                # every element
                n = len(comps[k])
                for L in sorted({c[0] for c in comps[k]}):
                    tot = self.extent(k, 8 if comps[k][0][4][0][3]['sty'] == 'double' else 4)
                    tr = imul(I(n), R.trip(L))
                    if tot is not None and R.trip(L).k != 'trip':
                        self.ob('every element', R.where(comps[k][0][4][0][3]), tr is tot, 'the loop turns %s elements into values, there are %s' % (show(tr), show(tot)))
        for a in order:
            for b, v, d in logs[a]:
                self.table(a, b, v, d)
        self.kept(order)
        return len(gs)

    def kept(self, order):
        """what the compressor appends verbatim for an element: its components in order, from the data or an exact copy of them"""
        p, W = self.p, self.W
        src = {a: a for a in order}
        for i in W.calls(r'memcpy'):
            d, s = W.base(W.X(i['ops'][0])), W.base(W.X(i['ops'][1]))
            if d is not None and d.k == 'mem' and s in order and d is W.X(i['ops'][0]) and s is W.X(i['ops'][1]):
                src.setdefault(d, s)
        vs = {}
        for i in W.calls(r'std::vector<(float|double), .*>::push_back|std::vector<(float|double), .*>::emplace_back'):
            b = W.base(W.X(i['ops'][0]))
            if b is not None and b.k == 'alloca':
                vs.setdefault((b.a[1], W.inner[i['b']]), []).append(i)
        for (b, L), ins in vs.items():
            if L < 0:
                continue
            where = W.where(ins[0])
            if intval(W.trip(L)) is not None:
                self.c.skip(self.key, '%s: components are kept verbatim by a loop over them' % where)
                continue
            items, n, size = p.vec(mk('vecdata', W.name, b), L)
            for x, g in parts(n):
                self.ob('verbatim', where, intval(x) in (0, max(self.nout, len(order)) if self.nout > 1 else intval(x)), '%s values are kept verbatim for an element of %d components' % (show(x), self.nout))
            first = []
            for r in sorted(items):
                for v, g in flatten(items[r]):
                    if v.k != 'ld' or W.base(v.a[0]) not in src:
                        self.c.skip(self.key, 'a value kept verbatim is not read from the data or a copy of them')
                        continue
                    base = W.base(v.a[0])
                    off = psub(v.a[0], base)
                    if r == 0:
                        first.append((off, g))
                    good = src[base] is order[r % self.nout] if self.nout > 1 else True
                    for o, h in first:
                        if B.And(h, g):
                            good = good and (off is o if self.nout > 1 else psub(off, o) is I(size * r))
                    self.ob('verbatim', where, good, 'component %d of an element kept verbatim is %s of %s' % (r, show(v)[:100], show(src[base])))

    def extent(self, k, size):
        """elements in output array k: as many as are allocated, or the product of the dimensions when a callee allocates it"""
        R = self.R
        for b, r in self.roles.items():
            if r == k and b.k == 'mem':
                for blk in R.order:
                    for i in R.blk[blk]['ins']:
                        if i.get('id') == b.a[1] and i['op'] == 'call' and i.get('callee') in ('malloc', 'calloc'):
                            n = R.X(i['ops'][0]) if i['callee'] == 'malloc' else imul(R.X(i['ops'][0]), R.X(i['ops'][1]))
                            return pscale(n, Fraction(1, size))
        dims = [a for j, a in enumerate(R.args) if R.j['args'][j]['ty'] == 'i64']
        tot = I(1)
        for a in dims:
            tot = imul(tot, a)
        return tot if len(dims) in (2, 3) else None

    def table(self, a, b, v, d):
        """element n of a table of logarithms is log2 |datum n|, or the marker of a zero"""
        W = self.W
        where = '%s: logarithms of %s' % (W.short, show(a))
        th = theory_of(v, fcmp('oeq', d, ZERO), flt(d, ZERO), flt(ZERO, d))
        for P, want, what in ((B.And(th, flt(ZERO, d), B.Not(flt(d, ZERO)), B.Not(fcmp('oeq', d, ZERO))), d, 'positive'),
                              (B.And(th, flt(d, ZERO), B.Not(flt(ZERO, d)), B.Not(fcmp('oeq', d, ZERO))), fneg(d), 'negative')):
            ok, got = True, None
            for x, g in flatten(v, P):
                arg = [y for y in x.a if isinstance(y, E)] if x.k == 'call' and x.a[0].startswith('log2') else []
                if not (arg and all(y is strip(want) or y is fneg(strip(fneg(want))) or same(y, want, g) or y is fabs_(d) for y, h in flatten(arg[0], g))):
                    ok, got = False, x
            self.ob('logarithm', where, ok, '' if ok else 'the logarithm of a %s value is taken as %s' % (what, show(got)[:300]))

    def cell(self, k, a, signs, logs, L, t, b, v, st):
        R, W, p = self.R, self.W, self.p
        where = R.where(st[-1][3])
        size = 8 if st[0][3]['sty'] == 'double' else 4
        idx = pscale(psub(t, b), Fraction(1, size))
        cell = mk('ld', t, st[0][3]['sty'])
        bits, zeros, member = set(), set(), set()
        for x in all_terms(v):
            if x.k == 'ld' and x.a[1] in ('i8', 'i8u'):
                for m, c in pmap(x.a[0]).items():
                    if len(m) == 1 and m[0].k == 'callv' and m[0].a[1] in p.dec:
                        bits.add((x, m[0]))
        for x in all_atoms(v):
            if x.k in ('flt', 'feq', 'feq0') and any(strip(y) is cell for y in x.a):
                zeros.add(x)
            if x.k == 'eq0' and any(y.k == 'callv' and W is not R and R.name == y.a[0] and y.a[1] not in p.dec for y in patoms(x.a[0])):
                member.add(x)
        if not self.ob('sign bit', where, len(bits) == 1, 'the sign of an output value depends on %d sign bits' % len(bits)):
            return
        ld, src = bits.pop()
        bi = psub(ld.a[0], src)
        self.ob('sign bit', where, bi is idx or same(bi, idx), 'element %s takes the sign of element %s' % (show(idx), show(bi)))
        it = p.dec[src.a[1]]
        sg = signs.get(it)
        if sg is None:
            self.c.skip(self.key, 'the table of signs is not filled in a recognised way')
            return
        if not self.ob('sign source', where, sg[0] is a, 'component %s is given the signs of %s' % (show(a), show(sg[0]) if sg[0] is not None else 'nothing')):
            return
        if sg[2] is None or sg[3] is None or sg[2] == sg[3]:
            ce = self.counterexample(sg[1], sg[4]) if sg[4] is not None else None
            if ce:
                self.ob('sign meaning', where, False, 'the stored bit of %s is set for %g and clear for %g: %s' % (show(a), ce[0], ce[1], show(sg[1])[:200]))
                return
            self.ob('sign meaning', where, sg[2] is None or sg[3] is None, 'the stored bit of %s does not tell positive from negative values: %s' % (show(a), show(sg[1])[:200]))
            if sg[2] is None or sg[3] is None:
                self.c.skip(self.key, 'meaning of the sign bits not recognised: ' + show(sg[1])[:200])
            return
        copied = [i for i in R.calls(r'^(memcpy|memmove|llvm\.mem(cpy|move)\S*|std::copy\S*|std::fill\S*)') if any(self.base(unmask(R.X(o))) is not None for o in i['ops'] if R.opty(o) == 'ptr')]
        if copied:
            self.c.skip(self.key, '%s: output elements are also set by a call' % R.where(copied[0]))
            return
        if not member and any(x.k == 'ld' and any(y.k == 'mu' for y in patoms(x.a[0])) for x, g in flatten(v)):
            self.c.skip(self.key, '%s: how verbatim elements are told from others is not recognised' % where)
            return
        setbit = B.Not(eq0(ld))
        mem = 0
        for x in member:
            mem = B.Or(mem, B.Not(B.atom(x)))
        gz = 0
        verb = []
        for x, g in flatten(v):
            y, neg = (x.a[0], True) if x.k == 'fneg' else (x, False)
            if y.k == 'f' and y.a[0] == 0:
                gz = B.Or(gz, g)
                continue
            if y.k == 'call' and y.a[0].startswith('exp2') and strip(y.a[-1]) is cell:
                # the bit must say what the sign of this branch says
                for pos, val in ((True, sg[2]), (False, sg[3])):
                    q = B.And(g, setbit if val else B.Not(setbit))
                    self.ob('sign', where, not q or neg != pos, 'a %s value of %s comes back %s' % ('positive' if pos else 'negative', show(a), 'negative' if neg else 'positive'))
                continue
            if mem and B.implies(g, mem):
                verb.append((x, g))
                continue
            self.ob('value', where, False, 'a value that is neither 2^logarithm of its own cell, zero, nor verbatim is stored: %s' % show(x)[:300])
        self.zero(k, a, logs, cell, zeros, gz, mem, v, where)
        if mem:
            self.verbatim(k, L, t, idx, size, verb, member, where)

    def zero(self, k, a, logs, cell, zeros, gz, mem, v, where):
        """the marker of a zero, and nothing that is not zero, becomes zero"""
        p = self.p
        if len(zeros) != 1:
            self.ob('zero', where, False, 'zeros are not told from other values by one comparison of the logarithm')
            return
        z = zeros.pop()
        self.ob('zero', where, B.And(theory_of(gz), B.ite(B.And(B.atom(z), B.Not(mem)), B.Not(gz), gz)) == 0, 'zero is stored under another condition than %s' % B.show(B.atom(z), 3))
        if z.k == 'flt' and strip(z.a[0]) is cell:
            T = strip(p.tr(z.a[1]))
        elif z.k == 'feq':
            T = strip(p.tr(z.a[1] if strip(z.a[0]) is cell else z.a[0]))
        else:
            self.ob('zero', where, False, 'the comparison %s does not tell small logarithms' % B.show(B.atom(z), 3))
            return
        for b, tv, d in logs:
            S = {strip(x) for x, g in flatten(tv, B.And(theory_of(tv, fcmp('oeq', d, ZERO), flt(d, ZERO), flt(ZERO, d)), fcmp('oeq', d, ZERO), B.Not(flt(d, ZERO)), B.Not(flt(ZERO, d))))}
            if not self.ob('zero marker', where, len(S) == 1, 'a zero of %s has no single marker among the logarithms' % show(a)):
                continue
            S = S.pop()
            if z.k == 'feq':
                self.ob('zero marker', where, S is T, 'zeros are marked by %s but recognised by equality with %s' % (show(S)[:200], show(T)[:200]))
                self.logbuf = b
                self.equal(a, T, d, where)
            elif S.k == 'f' and T.k == 'f':
                self.ob('zero marker', where, S.a[0] + 1 <= T.a[0], 'zeros are marked by %s, within the error bound of a value that is not below %s' % (show(S), show(T)))
                low = -149 if cell.a[1] == 'float' else -1074
                self.c.ob('tiny values', '%s/tiny/%g' % (self.key, T.a[0]), where, T.a[0] <= low - 1, 'values below 2^%d are taken for zeros' % T.a[0])
            else:
                self.relative(S, T, where)

    def relative(self, S, T, where):
        """S = m - s*e, T = m - t*e: a marker that is off by the bound stays below T, a logarithm that is off by the bound stays above it, both with room for rounding"""
        s, t = less(S), less(T)
        A = [x for i in self.W.calls(r'^(\S+ )*\**sz_compress_2d<') for x in [self.W.X(i['ops'][3])]]
        if s is None or t is None or len(A) != 1:
            self.c.skip(self.key, 'marker %s and threshold %s not recognised' % (show(S)[:150], show(T)[:150]))
            return
        self.finite()
        ea = leaves(A[0])
        self.ob('zero marker', where, s[0] is t[0] and s[2] is t[2] and ea <= leaves(t[2]), 'marker %s and threshold %s are not multiples of the bound %s away from the smallest logarithm' % (show(S)[:200], show(T)[:200], show(A[0])[:100]))
        room = max([0] + [x.a[0] for x in leaves(t[2]) if x.k == 'f'])
        self.ob('zero marker', where, s[1] - t[1] >= 1 and (s[1] - t[1] - 1) * room >= ROOM, 'marker %s may come back above the threshold %s' % (show(S)[:200], show(T)[:200]))
        self.ob('zero marker', where, t[1] >= 1 and (t[1] - 1) * room >= ROOM, 'values within the error bound of the smallest logarithm may fall below the threshold %s' % show(T)[:200])
        self.bound(ea, where)

    def equal(self, a, T, d, where):
        """zeros are recognised by equality with T: T is below every other logarithm by more than its bound, and zeros are exact"""
        W = self.W
        tables = []
        for b in {W.base(W.X(s['ops'][1])) for s in W.stores() if s['sty'] == 'double'}:
            if b is not None and b.k == 'mem':
                cells = self.flat_cells(b)
                if cells and b is not self.logbuf:
                    tables.append((b, self.value_after(b, cells, ZERO)))
        passed = [W.load_at(W.X(o), 'ptr', i) if W.X(o).k == 'alloca' else W.X(o) for i in W.calls(r'sz_compress_2d_with_eb') for o in i['ops'][1:2]]
        eb = [v for b, v in tables if b in passed]
        body = T.a[2] if T.k == 'exitval' else None
        low = [less(x) for x, g in flatten(body)] if body is not None else []
        low = [x for x in low if x is not None]
        if len(eb) != 1 or not low:
            self.c.skip(self.key, 'threshold %s or table of bounds not recognised' % show(T)[:150])
            return
        th = theory_of(eb[0], fcmp('oeq', d, ZERO), flt(d, ZERO), flt(ZERO, d))
        zero = B.And(th, fcmp('oeq', d, ZERO), B.Not(flt(d, ZERO)), B.Not(flt(ZERO, d)))
        self.ob('zero marker', where, all(x.k == 'f' and x.a[0] == 0 for x, g in flatten(eb[0], zero)), 'the bound of a zero is not 0')
        ea = set()
        for x, g in flatten(eb[0], B.And(th, B.Not(fcmp('oeq', d, ZERO)), B.Or(flt(d, ZERO), flt(ZERO, d)))):
            ea |= leaves(x)
        ea = {subst(x, {mk('sym', 'n'): W.loops[T.a[1]].iv}) for x in ea}
        for m, t, e in low:
            room = max([0] + [x.a[0] for x in leaves(e) if x.k == 'f'])
            self.ob('zero marker', where, ea <= leaves(e), 'the threshold does not take the bound %s into account: %s' % (show(list(ea)[-1])[:150], show(e)[:150]))
            self.ob('zero marker', where, t >= 1 and (t - 1) * room >= ROOM, 'values within their bound of the smallest logarithm may come to equal the threshold')
        self.bound(ea, where)

    def bound(self, ea, where):
        """the bound on logarithms is at most log2(1 + bound)"""
        for x in ea:
            if x.k == 'f' and x.a[0] == 0:
                continue
            ok = False
            if x.k == 'fadd':
                for y, w in (x.a, x.a[::-1]):
                    if y.k == 'call' and y.a[0].startswith('log2') and w.k == 'fneg' and notneg(w.a[0]):
                        ok = True
            if x.k == 'call' and x.a[0].startswith('log2'):
                ok = True
            self.c.ob('bound', self.key, where, ok, 'the bound on logarithms may exceed log2(1 + bound): %s' % show(x)[:200])

    def finite(self):
        """the threshold is computed from logarithms of values that are not zero"""
        W = self.W
        for i in W.calls(r'^(std::)?log2f?\b|^llvm\.log2'):
            x = strip(W.X(i['ops'][0]))
            while x.k in ('fabs', 'fneg', 'fptrunc', 'fpext'):
                x = x.a[0]
            if not any(y.k == 'ld' and y.a[1] in ('float', 'double') for y in all_terms(x)):
                continue
            P = W.pc(i['b'], W.inner[i['b']])
            bad = B.And(P, theory_of(P, x, flt(ZERO, x), fcmp('oeq', x, ZERO)))
            for y, g in flatten(x, bad):
                g = B.And(g, B.Not(flt(ZERO, y)), B.Not(flt(y, ZERO)), fcmp('oeq', y, ZERO))
                self.ob('logarithm of zero', W.where(i), not g, 'the logarithm of %s is taken where that may be zero, and the threshold for zeros becomes infinite' % show(y)[:200])

    def verbatim(self, k, L, t, idx, size, verb, member, where):
        """elements stored verbatim: the set of them, the cursor and the component"""
        R = self.R
        ids = {y.a[1] for x in member for y in patoms(x.a[0]) if y.k == 'callv'}
        calls = [i for i in R.calls(r'count|find|contains|operator\[\]') if i['id'] in ids]
        ins = R.calls(r'::(insert|emplace)\(')
        if len(calls) != 1 or len(ins) != 1:
            self.c.skip(self.key, 'the set of verbatim elements is not used in a recognised way')
            return
        n = len({g[2] for g in self.groups() if g[0] == L})
        per = n if self.nout == 1 else 1
        q = unmask(R.load_at(R.X(calls[0]['ops'][1]), 'i32', calls[0]))
        off = psub(idx, pscale(q, per))
        self.ob('verbatim', where, intval(off) is not None and 0 <= intval(off) < per, 'element %s is looked up among the verbatim ones as %s' % (show(idx), show(q)))
        comp = k if self.nout > 1 else int(intval(off) or 0)
        i = ins[0]
        L1 = R.inner[i['b']]
        q1 = unmask(R.load_at(R.X(i['ops'][1]), 'i32', i))
        # what the first pass takes the logarithm of for this element
        lead = None
        first = []
        for (l, kk, tt, bb, vv, ss) in self.groups():
            if l == L1 and (kk == k):
                o = pscale(psub(tt, bb), Fraction(1, size))
                d = psub(o, pscale(q1, per))
                if self.nout > 1:
                    self.ob('verbatim', where, intval(d) == 0, 'element %s is entered among the verbatim ones as %s' % (show(o), show(q1)))
                    first.append(vv)
                elif intval(d) == comp:
                    first.append(vv)
        if len(first) != 1:
            self.ob('verbatim', where, False, 'element %s is not among those the first pass decodes' % show(q1))
            return
        gi = R.pc(i['b'], L1)
        offs, cond = set(), 0
        for x, g in flatten(first[0]):
            lds = {y for y in all_terms(x) if y.k == 'ld' and y.a[1] in ('float', 'double') and any(z.k == 'mu' for z in patoms(y.a[0]))}
            for y in lds:
                m = [z for z in patoms(y.a[0]) if z.k == 'mu']
                offs.add((m[0], psub(y.a[0], m[0])))
            if x.k == 'f' or lds:
                cond = B.Or(cond, g)
        if not self.ob('verbatim', where, len(offs) == 1, 'the first pass takes component %d of a verbatim element from %d places' % (comp, len(offs))):
            return
        mu, off1 = offs.pop()
        self.ob('verbatim', where, B.And(theory_of(cond, gi), B.ite(cond, B.Not(gi), gi)) == 0, 'an element is entered among the verbatim ones when %s but decoded as one when %s' % (B.show(gi, 4), B.show(cond, 4)))
        for x, g in verb:
            m = [z for z in patoms(x.a[0]) if z.k == 'mu'] if x.k == 'ld' else []
            ok = len(m) == 1 and psub(x.a[0], m[0]) is off1
            self.ob('verbatim', where, ok, 'component %d of a verbatim element is restored from %s; the first pass found it at %s' % (comp, show(x)[:100], show(off1)))
            if not ok:
                continue
            i1, i2 = self.start(mu), self.start(m[0])
            self.ob('verbatim', where, i1 is i2, 'verbatim values are read from %s in one pass and from %s in the other' % (show(i1), show(i2)))
            s1, s2 = self.step(mu), self.step(m[0])
            mem = 0
            for z in member:
                mem = B.Or(mem, B.Not(B.atom(z)))
            w = I(size * (n if self.nout == 1 else self.nout))
            for (sv, cc, what) in ((s1, cond, 'first'), (s2, mem, 'second')):
                good = all(intval(d) == (intval(w) if B.implies(h, cc) else 0) if (B.implies(h, cc) or not B.And(h, cc)) else False for d, h in parts(sv))
                self.ob('verbatim', where, good, 'the cursor over the verbatim values moves by %s in the %s pass' % (show(sv)[:200], what))

    def start(self, mu):
        R = self.R
        for _ in range(6):
            if mu.k != 'mu':
                return mu
            mu = R.phi_parts(mu)[0]
        return mu

    def step(self, mu):
        nx = self.R.phi_parts(mu)[1]
        return mkpart([(psub(x, mu), g) for x, g in parts(nx)])


def all_terms(e):
    """every subterm, conditions included"""
    return walk(e, None, True)
