"""Lockstep of the block codecs: several coding loops under one nest of block loops, with row buffers and arrays of codes"""
from pair import *
from pair import Pair, Bad
from fn import *
from expr import *
import re
import refute


FLOAT = ('fadd', 'fmul', 'fdiv', 'fneg', 'fpext', 'fptrunc')


class BFn(Fn):
    """a function whose loops walk a grid block by block: the last block of a row may be cut off, all others are full"""
    fixed, frozen, ready = frozenset(), {}, False

    def __init__(self, mod, j):
        super().__init__(mod, j)


        st = set()
        for s in self.stores():
            b = self.base(self.X(s['ops'][1]))
            if b is not None:
                st.add(b)
        self._x.clear()
        self._pc.clear()
        for l in self.loops.values():
            l.__dict__.pop('tripe', None)
        self.fixed = {a for a in self.args if j['args'][a.a[1]]['ty'] == 'ptr' and a not in st}
        self.frozen = {}
        for x in [i for b in self.order if self.inner[b] < 0 for i in self.blk[b]['ins'] if i['op'] == 'load' and i['ty'] == 'i32']:
            e = self.X(['v', x['id']])
            if e.k == 'ld' and self.invariant(e):         # sizes taken from the stream are positive
                assume_nonneg(e)
                assume_fact(padd(e, I(-1)))
                assume_fact1(e)
        self.ready = True
        for L in sorted(self.loops, key=lambda l: self.loops[l].depth):
            self.bound(L)

    def bound(self, L):
        """facts about the counter of loop L: inside the loop, and (for the copy that stands for an iteration after which the loop goes on) one more"""
        t = self.trip(L)
        iv = self.loops[L].iv
        go = mk('iv', self.name, L, 'on')
        self.frozen[L] = go
        if t.k == 'trip' or t.k == 'part':
            return
        assume_fact(padd(t, pscale(iv, -1), I(-1)))
        assume_fact(padd(t, pscale(go, -1), I(-2)))
        d = padd(t, I(-1))
        if d.k == 'udiv':
            n, b = d.a
            assume_fact(padd(n, pscale(pmul(b, iv), -1)))
            assume_fact(padd(n, pscale(pmul(b, padd(go, I(1))), -1)))

    def invariant(self, x):
        """a load of the caller's memory, which this function never writes"""
        b = self.base(x.a[0])
        return b in self.fixed and not any(y.k in ('iv', 'mu', 'exitval', 'ld') for y in walk(x.a[0]))

    def depends(self, e, L):
        for x in walk(e, conds=True):
            if x.k in ('iv', 'mu', 'exit', 'exitval', 'trip') and x.a[0] == self.name and (x.a[1] == L or self.is_inside(x.a[1], L)):
                return True
            if x.k in ('ld', 'ldm') and not (x.k == 'ld' and self.invariant(x)):
                return True
            if x.k in ('callv', 'mem', 'ldv') and x.a[0] == self.name and self.ins[x.a[1]]['b'] in self.loops[L].blocks:
                return True
        return False

    def depends2(self, e, L):
        for x in walk(e, conds=True):
            if x.k in ('iv', 'mu', 'exit', 'trip') and x.a[0] == self.name and (x.a[1] == L or self.is_inside(x.a[1], L)):
                return True
            if x.k in ('ld', 'ldm', 'ldv') and not (x.k == 'ld' and self.invariant(x)):
                return True
        return False

    def scev(self, s, L):
        r = super().scev(s, L)
        return r if r is None or not self.ready or r.k != 'umin' else least(*r.a)

    def exit_value(self, v, k):
        return super().exit_value(simp(v), k)

    def trip(self, L):
        Lp = self.loops[L]
        if not hasattr(Lp, 'tripe'):
            super().trip(L)
            Lp.tripe = simp(Lp.tripe)
        return Lp.tripe

    def op_phi(self, i):
        return simp(super().op_phi(i))

    def header_phi(self, i, L):
        r = super().header_phi(i, L)
        if r.k != 'mu' or i['ty'] in ('float', 'double', 'i1') or i['id'] in self._busy or L not in self.frozen:
            return r
        Lp = self.loops[L]
        init = [o for p, o in i['in'] if p not in Lp.blocks]
        nxt = [o for p, o in i['in'] if p in Lp.blocks]
        if len(init) != 1 or len(nxt) != 1:
            return r
        saved = dict(self._x), dict(self._pc)
        self._busy.add(i['id'])
        self._x[i['id']] = r
        try:
            n = self.X(nxt[0])
        finally:
            self._busy.discard(i['id'])
        self._x, self._pc = saved
        go = self.frozen[L]
        n = simp(n, {Lp.iv: go})
        if n.k in ('part', 'undef'):
            return r
        a = self.X(init[0])
        d = psub(n, r)
        if not self.contains_mu(d, i['id']) and not self.depends(d, L) and not any(x is go for x in walk(d, conds=True)):
            return iadd(a, imul(d, Lp.iv))
        if not self.contains_mu(n, i['id']) and not any(x.k in ('mu', 'exitval', 'ld') and not (x.k == 'ld' and self.invariant(x)) for x in walk(n, conds=True)):
            # the value belongs to the iteration, computed one ahead
            f = simp(n, {go: padd(Lp.iv, I(-1))})
            if same(simp(f, {Lp.iv: I(0)}), simp(a)):
                return f
        return r


def least(a, b, *more):
    """min(a, b) of integers in one form, whatever was subtracted from or multiplied with both"""
    if more:
        return least(least(a, b), *more)
    if a.k == 'part' or b.k == 'part':
        return mkpart([(least(v, w), B.And(g, h)) for v, g in parts(a) for w, h in parts(b)])
    p = psub(a, b)
    if nonneg_facts(p):
        return b
    if nonneg_facts(pscale(p, -1)):
        return a
    m = sorted(pmap(p).items(), key=lambda t: tuple(x.id for x in t[0]))
    lead = [c for k, c in m if k][0]
    if lead < 0:
        p, b = pscale(p, -1), a
    c = content(p)
    return padd(b, pscale(mk('mn0', pscale(p, 1 / c)), c))


def content(p):
    """greatest common divisor of the coefficients"""
    import math
    n, d = 0, 1
    for c in pmap(p).values():
        n = math.gcd(n, abs(c.numerator))
        d = d * c.denominator // math.gcd(d, c.denominator)
    return Fraction(n, d)


def minpart(e):
    """two integer alternatives, the smaller one taken"""
    if e.a[1] != 'ite' or len(e.a[0]) != 2:
        return None
    (x, g), (y, h) = e.a[0]
    if any(v.k in NOINT or any(t.k in NOINT for t in patoms(v)) for v in (x, y)) or B.Or(g, h) != 1:
        return None
    s = B.support(g)
    d = psub(x, y)
    if len(s) != 1 or is_int(d):
        return None
    q = next(iter(s))
    if q.k != 'lt0':
        return None
    d = pscale(d, 1 / content(d))
    if g == B.atom(q):                  # x is taken when q < 0
        k = intval(psub(d, q.a[0]))
        return least(x, y) if k in (0, 1) else None
    k = intval(psub(pscale(d, -1), q.a[0]))
    return least(x, y) if k in (0, 1) else None


def settle(e):
    """minima decided by the guard they stand under"""
    out, ch = [], False
    for v, g in e.a[0]:
        ms = [x for x in patoms(v) if x.k == 'mn0'] if v.k == 'poly' or v.k == 'mn0' else ()
        for m in ms:
            p = m.a[0]
            for a in B.support(g):
                if a.k != 'lt0':
                    continue
                neg = B.implies(g, B.atom(a))
                if not neg and not B.implies(g, B.Not(B.atom(a))):
                    continue
                r = None
                k = intval(psub(a.a[0], p))
                h = intval(padd(a.a[0], p))
                # a: p + k < 0, or -p + h < 0
                if k is not None:
                    r = p if neg and k >= -1 else I(0) if not neg and k <= 0 else None
                elif h is not None:
                    r = I(0) if neg and h >= -1 else p if not neg and h <= 0 else None
                if r is not None:
                    v = subst(v, {m: r})
                    ch = True
                    break
        out.append((v, g))
    return mkpart(out, e.a[1]) if ch else e


NOINT = ('fadd', 'fmul', 'fdiv', 'f', 'fneg', 'fpext', 'fptrunc', 'fabs', 'i2f', 'undef', 'part')


_simp = {}
_epoch = [None]


def simp(e, env={}):
    """e over the facts known about its terms, minima in one form"""
    if _epoch[0] != epoch[0]:
        _simp.clear()
        _epoch[0] = epoch[0]
    key = tuple(sorted(env.items()))
    memo = _simp.setdefault(key, {})
    r = subst(e, env, memo, canonical)
    if isinstance(e, int):
        return r
    for _ in range(4):
        r0 = r
        r = subst(r, {}, _simp.setdefault((), {}), canonical)
        if r is r0:
            break
    memo[e] = r
    return r


def canonical(x):
    if x.k == 'umin':
        return least(*x.a)
    if x.k == 'mn0':
        return least(x.a[0], I(0))
    if x.k == 'part':
        y = settle(x)
        return minpart(y) or (y if y is not x else None) if y.k == 'part' else y
    return None


class BlockPair(Pair):
    def __init__(self, mod, wname, rname):
        self.mod = mod
        self.W, self.R = BFn(mod, mod.fj[wname]), BFn(mod, mod.fj[rname])
        self.tape = Tape(self.W)
        self.obl = []
        self.codevals, self.coefvals = [], set()

    def theory(self, *es):
        """with what C08 decides about the codes: a quantised code is neither "verbatim" (0) nor "equal to the mean" (1)"""
        P = theory_of(*es)
        for v in self.codevals:
            for c in (0, 1) if v not in self.coefvals else (0,):
                P = B.And(P, B.Not(eq0(padd(v, I(-c)))))
        return P

    def tr(self, e):
        r = super().tr(e)
        k = ('simp', r)
        if k not in self.memo:
            self.memo[k] = simp(r)
        return self.memo[k]

    # ------------------------------------------------------------ loops
    def prepare(self):
        R, W = self.R, self.W
        self.hook = self.stream_hook
        self.mufail, self.mudead, self.hyp = {}, set(), None
        outs = self.out_buffers()
        if len(outs) != 1:
            raise Stop('%s: output not recognised' % R.short)
        self.out = outs[0]
        self.data = [a for a in W.args if W.j['args'][a.a[1]]['ty'] == 'ptr'][0]
        huff = [it for it in self.tape.items if it.kind == 'huff']
        if not huff:
            raise Stop('%s: no entropy-coded codes' % W.short)
        self.codes = huff[-1].src
        self.syms = {it.src for it in self.tape.items if it.kind in ('huff', 'bits', 'arr')}
        self.env[self.out] = self.data
        self.codevals, self.coefvals = [], set()
        for st in W.stores():
            b = W.base(W.X(st['ops'][1]))
            if b in [it.src for it in huff]:
                for v, g in parts(W.X(st['ops'][0])):
                    for v in (v, simp(v)):
                        if intval(v) is None and v.k not in ('undef', 'part') and v not in self.codevals:
                            self.codevals.append(v)
                            if b is not self.codes:
                                self.coefvals.add(v)
        ra = [a for a in R.args if R.j['args'][a.a[1]]['ty'] == 'ptr'][1:]
        wa = [a for a in W.args if W.j['args'][a.a[1]]['ty'] == 'ptr'][1:]
        for a, b in zip(ra, wa):
            self.env[a] = b
        self.extra = {}
        self.reset()
        self.rleaf = self.nest_of(R, {self.out})
        self.wleaf = [L for L in self.nest_of(W, {self.codes}) if L >= 0]

    def entered(self, F, L):
        """condition, relative to the loop around it, under which loop L is entered"""
        lp = F.loops[L]
        g = 0
        for b in lp.entries:
            g = B.Or(g, F.edge(b, lp.header, lp.parent))
        return g

    def extend(self, a, b, m):
        """loopmap m with the nest of reader loop a on the nest of writer loop b, or None"""
        R, W = self.R, self.W
        ca, cb = self.chain(R, a), self.chain(W, b)
        if len(ca) != len(cb):
            return None
        m = dict(m)
        for x, y in zip(ca, cb):
            if m.get(x, y) != y or (x not in m and y in m.values()):
                return None
            if x not in m:
                self.loopmap = m
                self.reset()
                t, u = self.tr(R.trip(x)), W.trip(y)
                if t.k == 'trip' or not same(t, u):
                    k = (x, y)
                    if k not in self.shape:
                        self.shape[k] = None if t.k == 'trip' else refute.differ(W, t, u)
                    self.refused.setdefault(a, {})[b] = (x, t, u, self.shape[k])
                    return None
                m[x] = y
        return m

    def buffers(self, F, L, skip):
        out = []
        for s in F.stores():
            if F.inner[s['b']] == L:
                b = F.base(F.X(s['ops'][1]))
                if b not in skip and b not in out:
                    out.append(b)
        return out

    def tables(self, F, L, skip):
        """float arrays that leaf L only reads: the regression coefficients"""
        out = []
        for b in F.order:
            if F.inner[b] == L:
                for i in F.blk[b]['ins']:
                    if i['op'] == 'load' and i['ty'] in ('float', 'double'):
                        for x, _ in parts(F.X(i['ops'][0])):
                            q = F.base(x)
                            if q is not None and q.k in ('mem', 'callv') and q not in skip and q not in out:
                                out.append(q)
        return out

    def assignments(self, rl, wl, m, bufs, n=0, leaf=()):
        """ways to lay the reader's nests rl on the writer's nests wl: (loop map, buffer map, pairs of leaves)"""
        if n == len(rl):
            yield m, bufs, leaf
            return
        a = rl[n]
        for b in wl:
            if b in [y for x, y in leaf]:
                continue
            k = self.extend(a, b, m)
            if k is None:
                continue
            rb, wb = self.buffers(self.R, a, {self.out}), self.buffers(self.W, b, self.syms)
            bb = dict(bufs)
            if len(rb) > 1 or len(wb) > 1:
                continue
            if rb and wb:
                if bb.get(rb[0], wb[0]) is not wb[0] or rb[0] not in bb and wb[0] in bb.values():
                    continue
                bb[rb[0]] = wb[0]
            yield from self.assignments(rl, wl, k, bb, n + 1, leaf + ((a, b),))
        if len(rl) > len(wl) and n - len(leaf) < len(rl) - len(wl):
            yield from self.assignments(rl, wl, m, bufs, n + 1, leaf)

    def decide(self):
        """[(where, kind, ok, reader, writer)] for the best way to lay the decoder's loops on the compressor's, nest by nest"""
        groups = {}
        for a in self.rleaf:
            groups.setdefault(self.chain(self.R, a)[0], []).append(a)
        m, bufs, used, out = {}, {}, [], []
        self.mumap = {}
        self.shape = {}
        self.tries = 0
        self.pairs = []
        for g, rl in groups.items():
            best = why = None
            self.refused = {}
            kept = dict(self.mumap)
            free = [b for b in self.wleaf if b not in used]
            tops = {}
            for b in free:
                tops.setdefault(self.chain(self.W, b)[0], []).append(b)
            for wl in tops.values():
                for m1, b1, l1 in self.assignments(rl, wl, m, bufs):
                    self.tries += 1
                    self.mumap = dict(kept)
                    self.mufail = {}
                    try:
                        res = self.prove(m1, b1, l1, g, rl)
                    except Stop as e:
                        why = why or e
                        continue
                    bad = sum(not x[2] for x in res)
                    if best is None or bad < best[0]:
                        best = bad, res, m1, b1, l1, dict(self.mumap), dict(self.mufail)
                    if not bad:
                        break
                if best and not best[0]:
                    break
            if why and (best is None or best[0]):
                raise why
            if best is None or best[0]:
                odd = [(a, x) for a, q in self.refused.items() for x in q.values()]
                if any(not x[3] for a, x in odd):
                    raise Stop('the block loops at %s cannot be compared with those of %s' % (self.R.where(self.R.blk[self.R.loops[rl[0]].header]['ins'][-1]), self.W.short))
                if best is None:
                    for a in rl:
                        same_depth = [b for b in free if len(self.chain(self.W, b)) == len(self.chain(self.R, a))]
                        q = self.refused.get(a, {})
                        if same_depth and all(b in q for b in same_depth):
                            x, t, u, (env, i, j) = q[same_depth[0]]
                            out.append((self.R.where(self.R.blk[self.R.loops[x].header]['ins'][-1]), 'the decoder walks over %s where the compressor walks over %s (for %s)' % (
                                i, j, ', '.join('%s = %s' % (show(k), v) for k, v in env.items())), False, t, u))
                            return out
            if best is None:
                raise Stop('the block loops at %s have no counterpart of the same shape in %s' % (self.R.where(self.R.blk[self.R.loops[rl[0]].header]['ins'][-1]), self.W.short))
            bad, res, m, bufs, l1, self.mumap, self.mufail = best
            self.pairs += l1
            used += [b for a, b in l1]
            out += res
            if bad:
                break
        else:
            for b in self.wleaf:
                if b not in used:
                    out.append((self.W.where(self.W.blk[self.W.loops[b].header]['ins'][-1]), 'the compressor codes cells here that no loop of the decoder reads', False, None, None))
        return out

    # ------------------------------------------------------------ symbols
    def stream_read(self, p, ty):
        """what the writer put where the reader finds the code / verbatim value / indicator it takes from address p"""
        W = self.W
        if p.k == 'part':
            return None
        b = W.base(p)
        if b is None or b not in self.syms:
            return None
        loops = set(self.loopmap.values())
        by = {}
        for s in W.stores():
            a = W.X(s['ops'][1])
            if W.base(a) is b:
                by.setdefault(W.inner[s['b']], []).append((a, W.X(s['ops'][0]), W.pc(s['b'], W.inner[s['b']]), s))
        for L, st in by.items():
            if L not in loops or {x[3]['sty'] for x in st} != {ty}:
                continue
            if any(y is p for x in st for y, _ in parts(x[0])):
                return fold([x[:3] for x in st], p, mk('nosym', p))
        return None

    def src_addr(self, p):
        if p.k == 'part' and self.tape.on_tape(p):
            for it in self.tape.items:
                if it.kind == 'arr' and same(it.addr, p, B.And(it.guard, self.theory(it.addr, p, it.guard))):
                    return it.src
        return super().src_addr(p)

    def nonull(self, e):
        """a cursor that is null when there is nothing to read: the other alternative"""
        if e.k == 'part':
            r = [(v, g) for v, g in e.a[0] if not (v.k == 'null' or v is I(0))]
            if len(r) == 1:
                return r[0][0]
        return e

    def mu_cands(self, mu):
        R, W = self.R, self.W
        if mu.a[1] not in self.loopmap:
            return []
        Lw = self.loopmap[mu.a[1]]
        init = R.phi_parts(mu)[0]
        if isinstance(init, int):
            return []
        s = self.src_addr(self.tr(self.nonull(init)))
        out = []
        for i in W.blk[W.loops[Lw].header]['ins']:
            if i['op'] == 'phi' and i['ty'] != 'i1':
                x = W.X(['v', i['id']])
                if x.k == 'mu' and not isinstance(W.phi_parts(x)[0], int):
                    t = W.phi_parts(x)[0]
                    if same(t, s, theory_of(t, s)):
                        out.append(x)
        return out

    # ------------------------------------------------------------ what a mismatch means
    def cursor_status(self, mu, busy=()):
        """'same': moves in step; 'other': written in a form that has no counterpart to compare with (an index against a pointer); 'off': starts
        or advances differently from every compressor cursor of its kind"""
        if mu in self.mumap or mu in busy:
            return 'same'
        if mu in self.status:
            return self.status[mu]
        R, W = self.R, self.W
        if mu.a[1] not in self.loopmap or isinstance(R.phi_parts(mu)[0], int):
            return 'other'
        init = self.tr(R.phi_parts(mu)[0])
        c = self.mu_cands(mu)
        if c:
            deps = self.tr(R.phi_parts(mu)[1])
            r = 'off'
        elif [x for x in self.loose(init) if x is not mu]:
            deps, r = init, 'off'
        else:
            deps = init
            r = 'other'
            b = W.base(self.nonull(init))
            if b is not None:
                b = self.src_addr(self.tr(b))
                for y, n in self.cursors(self.loopmap[mu.a[1]]):
                    if W.base(n) is b:
                        r = 'off'
        for x in self.loose(deps):
            if x is not mu and self.cursor_status(x, busy + (mu,)) == 'other':
                r = 'other'
        self.status[mu] = r
        return r

    def loose(self, e):
        return [x for x in walk(e, conds=True) if x.k == 'mu' and x.a[0] == self.R.name] if isinstance(e, E) else \
            [y for x in B.support(e) for y in self.loose(x)] if isinstance(e, int) and e > 1 else []

    def judge(self, ok, rv, wv, kind=''):
        """False only where both sides are expressed over the same cursors; else None"""
        if ok:
            return ok
        for x in self.loose(rv):
            if self.cursor_status(x) == 'other':
                return None
        off = [x for x, s in self.status.items() if s == 'off']
        image = set(self.mumap.values()) | {y for x in off for y in self.mu_cands(x)}
        if 'coefficient' not in kind:
            for x in (x for y in ([wv] if isinstance(wv, E) else self.compared if 'no working copy' in kind else ()) for x in walk(y, conds=True)):
                if x.k == 'mu' and x.a[0] == self.W.name and x.a[1] in self.loopmap.values():
                    while x not in image and x.k == 'mu' and not isinstance(self.W.phi_parts(x)[0], int):
                        x = self.W.phi_parts(x)[0]
                    if x not in image and x.k != 'undef':
                        return None
        return False

    def prove(self, m, bufs, leaf, top, rl):
        self.status = {}
        return [(w, k, self.judge(ok, rv, wv, k) if ok is False and n < 100 else ok, rv, wv)
                for n, (w, k, ok, rv, wv) in enumerate(self.prove_all(m, bufs, leaf, top, rl))]

    def prove_all(self, m, bufs, leaf, top, rl):
        R, W = self.R, self.W
        self.loopmap, self.mudead = dict(m), set()
        for k in [k for k in self.env if k in self.extra]:
            del self.env[k]
        self.extra = dict(bufs)
        coef, uses = {}, {}
        for a, b in leaf:
            rt = self.tables(R, a, {self.out} | set(bufs) | self.syms | set(self.buffers(R, a, ())))
            wt = self.tables(W, b, set(bufs.values()) | self.syms | set(self.buffers(W, b, ())))
            if len(rt) == 1 and len(wt) == 1:
                self.extra.setdefault(rt[0], wt[0])
                coef[rt[0]] = b
                uses[b] = rt
            elif rt or wt:
                return [(R.where(R.blk[R.loops[a].header]['ins'][-1]), 'cells of such a block are predicted from coefficients on one side only', False, None, None)] * 100
        self.env.update(self.extra)
        self.reset()
        mine = [L for L in sorted(m, key=lambda l: R.loops[l].depth) if self.chain(R, L)[0] == top]
        for L in mine:
            for i in R.blk[R.loops[L].header]['ins']:
                if i['op'] == 'phi' and i['ty'] != 'i1':
                    x = R.X(['v', i['id']])
                    if x.k == 'mu' and x not in self.mumap:
                        self.match_mu(x)
        self.reset()
        res = []
        for L in mine:
            g, h = self.tr(self.entered(R, L)), self.entered(W, m[L])
            P = self.theory(g, h)
            ok = B.And(P, B.ite(g, B.Not(h), h)) == 0
            res.append((R.where(R.blk[R.loops[L].header]['ins'][-1]), 'the loop is entered when', ok, g, h))
        done = {a for a, b in leaf}
        for a in rl:
            if a not in done:
                g = 1
                for L in self.chain(R, a):
                    g = B.And(g, self.tr(self.entered(R, L)))
                res.append((R.where(R.blk[R.loops[a].header]['ins'][-1]), 'no such blocks are written; the loop is entered when', g == 0, g, 0))
        for a, b in leaf:
            rb, wb = self.buffers(R, a, {self.out}), self.buffers(W, b, self.syms)
            if bool(rb) != bool(wb):
                paired = rb and rb[0] in bufs or wb and wb[0] in bufs.values()
                res.append((R.where(R.blk[R.loops[a].header]['ins'][-1]), 'cells of such a block enter the prediction buffer on one side only', False if paired else None, None, None))
                continue
            cells = {}
            for base in [self.out] + rb:
                st = [(R.X(s['ops'][1]), R.X(s['ops'][0]), R.pc(s['b'], a), s) for s in R.stores() if R.inner[s['b']] == a and R.base(R.X(s['ops'][1])) is base]
                for t in {x: 1 for q in st for x, _ in parts(q[0])}:
                    rv = self.tr(fold([x[:3] for x in st], t, mk('unset', t)))
                    tw = self.tr(t)
                    what = 'the decoder stores'
                    if base is self.out:
                        cells[tw] = R.where(st[0][3])
                        if wb:
                            aw = [x for q in self.wstores(wb[0], b) for x, _ in parts(q[0])]
                            wv = fold([x[:3] for x in self.wstores(wb[0], b)], aw[0], mk('unset', t)) if all(x is aw[0] for x in aw) else mk('unknown', t)
                        else:
                            wv = None
                    else:
                        what = 'the decoder keeps in its prediction buffer'
                        wv = fold([x[:3] for x in self.wstores(bufs[base], b)], tw, mk('ld', tw, st[0][3]['sty']))
                    def forwarded(e):
                        return e
                    G = 1
                    if wv is not None and not same(rv, wv, self.theory(rv, wv)) or wv is None and not self.as_compared(rv, tw):
                        # the compiler may use a coefficient just stored without loading it again
                        fw, G = self.just_stored(uses.get(b, []), b)
                        forwarded = lambda e: simp(subst(e, fw)) if fw else e
                        rv = forwarded(rv)
                        wv = wv if wv is None else forwarded(wv)
                    if wv is None:
                        ok = self.as_compared(rv, tw, forwarded, G)
                        if ok is False:
                            ok = self.judge(ok, rv, None, 'no working copy')
                        what = 'the decoder stores (with no working copy to compare with)'
                    else:
                        ok = same(rv, wv, B.And(G, self.theory(rv, wv, G)))
                    res.append((R.where(st[0][3]), what, ok, rv, wv))
            seen = {x for s in W.stores() if W.inner[s['b']] == b and W.base(W.X(s['ops'][1])) in self.syms
                    for x in walk(W.X(s['ops'][0]), conds=True) if x.k == 'ld' and W.base(x.a[0]) is self.data and any(y.k == 'iv' and y.a[1] == b for y in walk(x.a[0]))}
            if not seen:
                res.append((W.short, 'no value of the data is coded in these blocks', None, None, None))
            for c, w in cells.items():
                for x in seen:
                    res.append((w, 'the decoder fills the cell', x.a[0] is c, c, x.a[0]))
        used = {x for a, b in leaf for x in self.buffers(R, a, {self.out})}
        for rb, wb in bufs.items():
            if rb in used:
                res += self.buffer_ops(rb, wb, {a for a, b in leaf} | set(mine), top)
        for t, b in coef.items():
            res += self.coefficients(t, self.extra[t], b)
        return res

    def just_stored(self, tables, leaf):
        """({load of a coefficient: what the block loop stored there}, condition under which the nest of the leaf is entered)"""
        W = self.W
        fw, G = {}, 1
        for t in tables:
            wt = self.extra[t]
            Lw = self.block_loop(wt)
            if Lw is None or Lw not in self.chain(W, leaf):
                continue
            c = self.chain(W, leaf)
            kid = c[c.index(Lw) + 1]
            G = B.And(G, simp(self.entered(W, kid)) if isinstance(self.entered(W, kid), E) else self.entered(W, kid))
            st = [x[:3] for x in self.wstores(wt, Lw)]
            for a in dict.fromkeys(x[0] for x in st):
                fw[mk('ld', a, 'float')] = fold(st, a, mk('unset', a))
        return fw, G

    def as_compared(self, rv, cell, forwarded=lambda e: e, G=1):
        """every alternative is the original kept verbatim, or the very value the compressor compared with the original"""
        misses = []             # nosym: a code that is never stored, under conditions not seen to exclude each other
        self.compared = []
        for v, g in parts(rv):
            g = B.And(g, G, self.theory(v, g))
            if g == 0 or v.k == 'ld' and v.a[0] is cell:
                continue
            hit = False
            for x in B.support(g):
                if x.k == 'flt' and (B.implies(g, B.atom(x)) or B.implies(g, B.Not(B.atom(x)))):
                    for y in walk(x):
                        if y.k == 'fabs' and any(z.k == 'ld' and z.a[0] is cell for z in walk(y)):
                            self.compared.append(y)
                            hit = hit or any(z.k in FLOAT and same(v, forwarded(z), g) for z in walk(y))
            if not hit:
                misses.append(v)
        if not misses:
            return True
        return None if G != 1 and all(v.k == 'nosym' for v in misses) else False

    def memops(self, F, base):
        """whole-range writes of a buffer: (kind, destination, source, length, loop, guard, instruction)"""
        out = []
        if base.k == 'mem' and re.search('calloc', F.ins[base.a[1]].get('callee', '')):
            i = F.ins[base.a[1]]
            out.append(('set', base, I(0), pmul(F.X(i['ops'][0]), F.X(i['ops'][1])), F.inner[i['b']], F.pc(i['b'], F.inner[i['b']]), i))
        for i in F.calls(r'mem(cpy|set|move)'):
            d = F.X(i['ops'][0])
            if F.base(d) is base:
                k = 'set' if 'memset' in (i.get('callee') or '') else 'copy'
                L = F.inner[i['b']]
                out.append((k, d, F.X(i['ops'][1]), F.X(i['ops'][2]), L, F.pc(i['b'], L), i))
        return sorted(out, key=lambda t: F.key(t[6]))

    def buffer_ops(self, rb, wb, mine, top):
        R, W = self.R, self.W
        for F, base, leaves in ((R, rb, set(self.rleaf)), (W, wb, set(self.wleaf))):
            for s in F.stores():
                if F.base(F.X(s['ops'][1])) is base and F.inner[s['b']] not in leaves:
                    raise Stop('%s: the prediction buffer is also written here' % F.where(s))
        ro, wo = self.memops(R, rb), self.memops(W, wb)
        if len(ro) != len(wo):
            return [(R.short, 'the prediction buffer is cleared and carried over in %d steps by the decoder, in %d by the compressor' % (len(ro), len(wo)), False, None, None)] * 20
        res = []

        def after(F, i, loops):
            n = {b: k for k, b in enumerate(F.order)}
            return {L for L in loops if n[F.loops[L].header] < n[i['b']]}
        for x, y in zip(ro, wo):
            if x[0] != y[0] or x[4] >= 0 and x[4] not in self.loopmap:
                raise Stop('%s: another operation on the prediction buffer' % R.where(x[6]))
            lp = -1 if x[4] < 0 else self.loopmap[x[4]]
            ok = lp == y[4]
            a = {self.loopmap[L] for L in after(R, x[6], [k for k in mine if self.chain(R, k)[0] == top])}
            b = after(W, y[6], [self.loopmap[k] for k in mine])
            if x[4] < 0 and x[4] == y[4]:
                ok = ok and (not a) == (not b)
            else:
                ok = ok and a == b
            res.append((R.where(x[6]), 'the prediction buffer is %s at another point of the walk' % ('cleared' if x[0] == 'set' else 'carried over'), ok, None, None))
            g, h = self.tr(x[5]), y[5]
            if x[4] >= 0:
                P = self.theory(g, h)
                res.append((R.where(x[6]), 'this happens when', B.And(P, B.ite(g, B.Not(h), h)) == 0, g, h))
            for p, q, n in ((x[1], y[1], 'to'), (x[2], y[2], 'from' if x[0] == 'copy' else 'value'), (x[3], y[3], 'length')):
                u, v = self.tr(p), simp(q)
                res.append((R.where(x[6]), 'prediction buffer %s: %s' % ('cleared' if x[0] == 'set' else 'carried over', n), same(u, v, self.theory(u, v)), u, v))
        return res

    # ------------------------------------------------------------ coefficients
    def coefficients(self, rt, wt, leaf):
        """the coefficients the decoder rebuilds before it starts are those the compressor predicts with, block by block"""
        R, W = self.R, self.W
        rs = [s for s in R.stores() if R.base(R.X(s['ops'][1])) is rt]
        ls = {R.inner[s['b']] for s in rs} - {-1}
        Lw = self.block_loop(wt)
        if len(ls) != 1 or Lw is None:
            raise Stop('%s: regression coefficients are not rebuilt in one loop' % R.short)
        Lr = ls.pop()
        where = R.where([s for s in rs if R.inner[s['b']] == Lr][0])
        res = []
        first = lambda F, t: {psub(F.X(s['ops'][1]), t): F.X(s['ops'][0]) for s in F.stores() if F.inner[s['b']] < 0 and F.base(F.X(s['ops'][1])) is t}
        a, b = first(R, rt), first(W, wt)
        res.append((where, 'coefficients before the first block', a == b, mk('opaque', str(sorted(map(str, a)))), mk('opaque', str(sorted(map(str, b))))))
        # cursors of the compressor: into the coefficients, their codes and the verbatim ones
        iv = R.loops[Lr].iv
        addr = [R.X(s['ops'][1]) for s in rs if R.inner[s['b']] == Lr]
        o = [psub(x, rt) for x in addr]
        step = psub(subst(o[0], {iv: I(1)}), subst(o[0], {iv: I(0)}))
        cur = self.cursors(Lw)
        tc = [x for x, i in cur if W.base(i) is wt]
        it = [k for k in self.dec if self.dec[k].kind == 'huff' and self.dec[k].src is not self.codes]
        if len(tc) != 1 or len(it) != 1 or intval(step) is None:
            raise Stop('%s: cursor into the coefficients not recognised' % W.short)
        tc = tc[0]
        cc = [x for x, i in cur if i is self.dec[it[0]].src]
        call = [x for x in {y for s in rs for y in walk(R.X(s['ops'][0]), conds=True)} if x.k == 'callv' and x.a[1] == it[0]]
        if len(cc) != 1 or len(call) != 1:
            raise Stop('%s: cursor into the codes of the coefficients not recognised' % W.short)
        cc = cc[0]
        start = simp(dict(cur)[tc])
        env = {iv: I(0), rt: psub(tc, psub(start, wt)), call[0]: cc}
        verb = {}
        for i in R.blk[R.loops[Lr].header]['ins']:
            if i['op'] == 'phi' and i['ty'] != 'i1':
                x = R.X(['v', i['id']])
                if x.k == 'mu' and i['ty'] in ('float', 'double'):
                    # the coefficient of the block before, kept in a register
                    for t in dict.fromkeys(addr):
                        st = [(R.X(s['ops'][1]), R.X(s['ops'][0]), R.pc(s['b'], Lr)) for s in rs if R.inner[s['b']] == Lr]
                        c = padd(subst(psub(t, rt), {iv: I(0)}), pscale(step, -1))
                        if same(fold(st, t, mk('unset', t)), R.phi_parts(x)[1]) and a.get(c) is R.phi_parts(x)[0]:
                            env[x] = mk('ld', padd(tc, pscale(step, -1), c), i['ty'])
                elif x.k == 'mu':
                    t = self.src_addr(self.tr(self.nonull(R.phi_parts(x)[0])))
                    for y, n in cur:
                        if same(n, t, theory_of(n, t)):
                            verb[x] = y
        env.update(verb)
        arrays = {self.dec[it[0]].src} | {W.base(y) for y in verb.values()}

        def hook(e):
            if e.k == 'ld' and e.a[0].k != 'part':
                q = W.base(e.a[0])
                if q in arrays:
                    st = [x[:3] for x in self.wstores(q, Lw)]
                    return fold(st, e.a[0], mk('nosym', e.a[0]))
            return None
        keep, self.hook, old = self.env, hook, self.memo
        self.env, self.memo = dict(keep), {}
        self.env.update(env)
        try:
            G = 0
            for q in self.wstores(self.dec[it[0]].src, Lw):
                G = B.Or(G, simp(q[2]))
            for t in dict.fromkeys(addr):
                st = [(R.X(s['ops'][1]), R.X(s['ops'][0]), R.pc(s['b'], Lr)) for s in rs if R.inner[s['b']] == Lr]
                rv, tw = self.tr(fold(st, t, mk('unset', t))), self.tr(t)
                wv = simp(fold([x[:3] for x in self.wstores(wt, Lw)], tw, mk('unset', tw)))
                res.append((where, 'coefficient rebuilt by the decoder', same(rv, wv, B.And(G, self.theory(rv, wv, G))), rv, wv))
            for x, y in verb.items():
                rv, wv = self.tr(R.phi_parts(x)[1]), simp(self.w_parts(y)[1])
                res.append((where, 'next verbatim coefficient', same(rv, wv, B.And(G, self.theory(rv, wv, G))), rv, wv))
                res.append((where, 'next verbatim coefficient of a block without regression', same(y, wv, B.And(B.Not(G), self.theory(wv, G))), y, wv))
            res.append((where, 'number of coefficient sets', self.counted(self.tr(R.trip(Lr)), Lw, cur, G), None, None))
            for y in (tc, cc):
                wv = simp(self.w_parts(y)[1])
                res.append((where, 'coefficient step between blocks with regression', same(padd(y, step), wv, B.And(G, self.theory(wv, G))), padd(y, step), wv))
                res.append((where, 'coefficient step over a block without regression', same(y, wv, B.And(B.Not(G), self.theory(wv, G))), y, wv))
        finally:
            self.env, self.hook, self.memo = keep, self.stream_hook, old
            self.reset()
        return res

    def counted(self, t, Lw, cur, G):
        """t is how often the compressor's block loop Lw passed a block with regression (G); None: not decided"""
        W = self.W
        for v, g in parts(t):
            if B.And(g, self.theory(v, g)) == 0:
                continue
            n = v
            while n.k == 'exitval':
                n = n.a[2]
            if n is v:
                if intval(v) is not None or v.k == 'nosym':
                    continue
                for x in walk(v):
                    if x.k == 'exitval' and v.k == 'poly' and pmap(v).get((x,)) == 1:
                        d = psub(v, x)
                        if d is not I(0) and all(y.k == 'b2i' for y in patoms(d)):
                            return False
                return None
            for x, i in cur:
                if i is I(0):
                    y = simp(self.w_parts(x)[1])
                    if same(y, n, B.And(1, self.theory(y, n))):
                        if not (same(padd(x, I(1)), y, B.And(G, self.theory(y, G))) and same(x, y, B.And(B.Not(G), self.theory(y, G)))):
                            return False
                        break
            else:
                # the count of another nest: decided when that one is laid out
                if not any(z.k == 'mu' and z.a[1] == Lw for z in walk(n, conds=True)):
                    continue
                return None
        return True

    def block_loop(self, wt):
        W = self.W
        ls = {W.inner[s['b']] for s in W.stores() if W.base(W.X(s['ops'][1])) is wt} - {-1}
        return ls.pop() if len(ls) == 1 else None

    def cursors(self, L):
        """(loop variable, where it starts before the outermost loop) of loop L"""
        W = self.W
        out = []
        for i in W.blk[W.loops[L].header]['ins']:
            if i['op'] == 'phi' and i['ty'] != 'i1':
                x = W.X(['v', i['id']])
                if x.k == 'mu' and not isinstance(W.phi_parts(x)[0], int):
                    n = W.phi_parts(x)[0]
                    k = 0
                    while n.k == 'mu' and k < 8:
                        n = W.phi_parts(n)[0]
                        k += 1
                    out.append((x, n))
        return out
