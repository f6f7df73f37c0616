"""Definite initialisation of memory blocks: an element of a local block that is read must be one that some store, copy or fill of the block can reach.

Every write is taken to happen whatever the data (over-approximation), every address is evaluated from the gated symbolic form for a few
sizes; a read of an element none of the writes reaches is reported with those sizes."""
import itertools
import math
import re
from fractions import Fraction
from expr import *
from fn import Stop
import bounds
from bounds import Unknown

SMALL = {'BSIZE': (2,), 'block_size': (2,), 'r1': (4,), 'r2': (5,), 'r3': (3,), 'n': (4,), 'm': (3,), 'num_elements': (5,), 'state_num': (4,)}
SIZES = ({}, {'r1': 3, 'r2': 3, 'r3': 5, 'BSIZE': 3}, {'r1': 9, 'r2': 6, 'r3': 2, 'BSIZE': 4})


class Open(Exception):
    """not a function of the sizes"""


class Sim(bounds.Witness):
    """values of symbolic expressions for given sizes and loop counters; loop-carried values are followed from iteration to iteration"""

    def __init__(self, *a):
        super().__init__(*a)
        self.memo = {}
        self.up = {}

    def outer(self, L):
        if L not in self.up:
            r = []
            l = L
            while l is not None and l >= 0:
                r.append(self.F.loops[l].iv)
                l = self.F.loops[l].parent
            self.up[L] = r
        return self.up[L]

    def val(self, e, env):
        if e.k == 'ld' and e.a[1] in ('i32', 'i64', 'i32u') and (self.F.base(e.a[0]) or e).k == 'arg' and not any(x.k in ('iv', 'mu', 'ld') for x in walk(e.a[0])):
            return Fraction(env['field'])       # a field of the stream
        if e.k == 'trip' and e.a[0] == self.F.name:
            return self.count(e, env)
        if e.k == 'f2i':
            return Fraction(int(self.real(e.a[0], env)))
        if e.k == 'pow2':
            n = self.val(e.a[0], env)
            if not 0 <= n < 40:
                raise Unknown()
            return Fraction(2 ** int(n))
        if e.k in ('lshr', 'ashr'):
            x, n = self.val(e.a[0], env), self.val(e.a[1], env)
            if x < 0 or not 0 <= n < 64:
                raise Unknown()
            return Fraction(int(x) >> int(n))
        if e.k in ('and', 'or', 'xor'):
            xs = [int(self.val(x, env)) for x in e.a]
            if any(x < 0 for x in xs):
                raise Unknown()
            r = xs[0]
            for x in xs[1:]:
                r = r & x if e.k == 'and' else r | x if e.k == 'or' else r ^ x
            return Fraction(r)
        if e.k == 'shl':
            return self.val(e.a[0], env) * 2 ** int(self.val(e.a[1], env))
        if e.k not in ('mu', 'exitval') or e.a[0] != self.F.name:
            return super().val(e, env)
        L = e.a[1]
        vs = self.outer(L) if e.k == 'mu' else self.outer(L)[1:]
        key = (e, env['run'], tuple(env.get(v) for v in vs))
        if None in key[2]:
            raise Unknown()
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise Unknown()
            return r
        self.memo[key] = None
        iv = self.F.loops[L].iv
        if e.k == 'mu':
            init, nx = self.F.phi_parts(e)
            n = env[iv]
            if n == 0:
                r = self.val(init, env)
            else:
                q = dict(env)
                q[iv] = n - 1
                r = self.val(nx, q)
        else:
            t = self.val(self.F.trip(L), env)
            if t <= 0:
                raise Unknown()
            q = dict(env)
            q[iv] = t - 1
            r = self.val(e.a[2], q)
        self.memo[key] = r
        return r


    def count(self, e, env):
        """iterations of a loop, by following its condition"""
        F, L = self.F, e.a[1]
        Lp = F.loops[L]
        if len(Lp.exits) != 1:
            raise Unknown()
        key = (e, env['run'], tuple(env.get(v) for v in self.outer(L)[1:]))
        if key in self.memo:
            if self.memo[key] is None:
                raise Unknown()
            return self.memo[key]
        self.memo[key] = None
        b, out = Lp.exits[0]
        t = F.blk[b]['ins'][-1]
        if t['op'] != 'br' or len(t['ops']) != 3:
            raise Unknown()
        c = F.C(t['ops'][0])
        leave = c if t['ops'][2][1] == out else B.Not(c)
        q = dict(env)
        for n in range(200):
            q[Lp.iv] = Fraction(n)
            if self.truth(leave, q):
                self.memo[key] = Fraction(n + 1)
                return self.memo[key]
        raise Unknown()

    def real(self, e, env):
        if e.k == 'f':
            return e.a[0]
        if e.k in ('fpext', 'fptrunc'):
            return self.real(e.a[0], env)
        if e.k == 'i2f':
            return float(self.val(e.a[0], env))
        if e.k == 'call':
            x = self.real(e.a[-1], env)
            f = {'log2': math.log2, 'log2f': math.log2, 'ceil': math.ceil, 'floor': math.floor, 'sqrt': math.sqrt}.get(e.a[0])
            if f and x > 0:
                return f(x)
        raise Unknown()


class Blocks:
    def __init__(self, mod, F, ef):
        self.mod, self.F, self.ef = mod, F, ef
        self.bd = bounds.Bounds(mod, F, {})
        self.entries = {}
        self.wit = Sim(self.bd, I(0), 1, -1)

    def events(self):
        """block -> (writes, reads, copies inside the block); each (instruction, pointer, condition, bytes)"""
        F = self.F
        out = {}

        def put(kind, i, p, n, q=None):
            for v, h in parts(p):
                if intval(v) is not None and intval(v) == 0:
                    continue
                o = F.base(v)
                if o is None:
                    if kind != 'r':
                        self.wild = True
                    continue
                if o.k in ('mem', 'alloca') and o.a[0] == F.name:
                    out.setdefault(o, ([], [], []))[{'w': 0, 'r': 1, 'c': 2}[kind]].append((i, v, h, n, q))
        self.wild = False
        for b in F.order:
            for i in F.blk[b]['ins']:
                if i['op'] == 'load':
                    put('r', i, F.X(i['ops'][0]), I(i['sz']))
                elif i['op'] == 'store':
                    put('w', i, F.X(i['ops'][1]), I(i['sz']))
                    o = F.base(F.X(i['ops'][0])) if i.get('sty', i.get('ty')) == 'ptr' else None
                    if o is not None and o.k in ('mem', 'alloca'):
                        d = F.base(F.X(i['ops'][1]))
                        if d is not None and d.k == 'arg':
                            self.results[o] = i
                        elif d is None or d.k != 'alloca':
                            self.gone.add(o)
                elif i['op'] == 'ret' and i['ops']:
                    for v, h in parts(F.X(i['ops'][0])):
                        o = F.base(v)
                        if o is not None and o.k == 'mem':
                            self.results[o] = i
                elif i['op'] in ('call', 'invoke'):
                    n = i.get('callee') or ''
                    if n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
                        d, s = F.X(i['ops'][0]), F.X(i['ops'][1])
                        if F.base(d) is not None and F.base(d) is F.base(s):
                            put('c', i, d, F.X(i['ops'][2]), s)
                        else:
                            put('w', i, d, F.X(i['ops'][2]))
                            put('r', i, s, F.X(i['ops'][2]))
                    elif n.startswith('llvm.memset') or n == 'memset':
                        put('w', i, F.X(i['ops'][0]), F.X(i['ops'][2]))
                    elif n.startswith('llvm.lifetime') or n == 'free' or 'Huffman_encode_tree_and_data' in n:
                        pass
                    else:
                        if 'convertIntArray2ByteArray' in n or 'encode' in n:
                            for a in i['ops']:
                                try:
                                    v = F.X(a)
                                    o = F.base(F.load_at(v, 'ptr', i)) if v.k == 'alloca' else None
                                except (Stop, KeyError, TypeError):
                                    o = None
                                if o is not None:
                                    self.gone.add(o)
                        s = self.ef.of(n) if n in self.ef.sum else None
                        for k, a in enumerate(i['ops']):
                            try:
                                v = F.X(a)
                            except Exception:
                                continue
                            for y in [F.base(x) for x, _ in parts(v)]:
                                if y is not None and y.k in ('mem', 'alloca') and (s is None or ('arg', k) in s.writes or ('*', k) in s.writes):
                                    self.gone.add(y)
        return out

    def times(self, i, env):
        """loop counters at which the instruction may run"""
        F = self.F
        loops = []
        L = F.inner[i['b']]
        while L is not None and L >= 0:
            loops.insert(0, L)
            L = F.loops[L].parent
        g = self.bd.guard(i['b'])
        for e in self.count(loops, env):
            yield e, g

    def count(self, loops, env):
        if not loops:
            yield env
            return
        g = self.entry(loops[0])
        if g is not None and not self.maybe(g, env):
            return
        try:
            t = int(self.wit.val(self.F.trip(loops[0]), env))
        except Unknown:
            raise Open()
        for v in range(max(t, 0)):
            e = dict(env)
            e[self.F.loops[loops[0]].iv] = Fraction(v)
            self.n += 1
            if self.n > 60000:
                raise Open()
            yield from self.count(loops[1:], e)

    def entry(self, L):
        """condition under which a loop is entered"""
        if L not in self.entries:
            F = self.F
            h = F.loops[L].header
            g = 0
            for p in F.order:
                if h not in F.blk[p]['succ']:
                    continue
                if p not in F.loops[L].blocks:
                    x = self.bd.guard(p)
                    g = None if x is None or g is None else B.Or(g, B.And(x, F.branch(p, h)))
            self.entries[L] = g
        return self.entries[L]

    def maybe(self, g, env):
        for a in B.support(g):
            if g <= 1:
                break
            try:
                v = 1 if self.wit.atom(a, env) else 0
            except Unknown:
                continue
            g = B.restrict(g, a, v)
        return g != 0

    def ranges(self, ev, env, o):
        """(from, to, instruction, counters) of an access"""
        i, p, h, n, q = ev
        for e, g in self.times(i, env):
            if not self.maybe(B.And(g if g is not None else 1, h), e):
                continue
            try:
                a = int(self.wit.val(p, e))
                z = int(self.wit.val(n, e))
                s = None if q is None else int(self.wit.val(q, e))
            except (Unknown, KeyError):
                raise Open()
            yield a, a + z, i, e, s

    def key(self, i, e):
        """when an instruction runs, relative to the others of the call"""
        F = self.F
        L = F.inner[i['b']]
        k = [self.pos[i['b']], self.at[i['id'] if 'id' in i else id(i)]] if False else [self.pos[i['b']], self.at[id(i)]]
        while L is not None and L >= 0:
            k = [self.pos[F.loops[L].header], int(e[F.loops[L].iv])] + k
            L = F.loops[L].parent
        return tuple(k)

    def check(self, emit, only=None):
        F = self.F
        self.gone = set()
        self.results = {}
        self.runs = 0
        self.pos = {b: n for n, b in enumerate(F.order)}
        self.at = {id(i): n for b in F.order for n, i in enumerate(F.blk[b]['ins'])}
        ev = self.events()
        ints = [a for a in F.args if F.j['args'][a.a[1]]['ty'].startswith('i')]
        bools = [a for a in ints if F.j['args'][a.a[1]]['ty'] in ('i1', 'i8')]
        for o, (ws, rs, cs) in ev.items():
            result = self.results.get(o) if re.search(r'\bsz3?_decompress', F.short) else None
            if not (rs or result) or o in self.gone or o.k == 'alloca' and not F.ins[o.a[1]].get('asz', 0) > 16:
                continue
            if o.k == 'mem' and F.ins[o.a[1]].get('callee') not in ('malloc', '_Znam', '_Znwm'):
                continue
            if only and not result:
                continue
            why, done, bad = None, 0, False
            for pick in SIZES[:2] if len(ints) - len(bools) > 3 or any(a.a[2] == 'r3' for a in ints) else SIZES:
                for bv in itertools.product((0, 1), repeat=len(bools)):
                    env = {a: Fraction(pick.get(a.a[2], SMALL.get(a.a[2], (3,))[0])) for a in ints}
                    env.update(dict(zip(bools, map(Fraction, bv))))
                    self.runs += 1
                    env['run'] = self.runs
                    env['field'] = pick.get('BSIZE', 2)
                    env[o] = Fraction(0)
                    self.n = 0
                    say = lambda e: ', '.join('%s=%s' % (show(x), v) for x, v in e.items() if x not in ('run', 'field') and x is not o)
                    try:
                        E_ = []
                        for kind, xs in (('w', ws), ('c', cs)):
                            for w in xs:
                                E_ += [(self.key(i, e), kind, a, b, s, i, e) for a, b, i, e, s in self.ranges(w, env, o)]
                    except Open:
                        why = 'a write whose place depends on more than sizes'
                        break
                    for r in rs:
                        try:
                            E_ += [(self.key(i, e), 'r', a, b, s, i, e) for a, b, i, e, s in self.ranges(r, env, o)]
                        except Open:
                            continue
                    E_.sort(key=lambda t: t[0])
                    try:
                        size = int(self.wit.val(self.bd.size(o), env))
                    except (Unknown, AttributeError):
                        size = None
                    top = max([b for k, kind, a, b, s, i, e in E_ if kind != 'r'] + [0] + ([size] if size else []))
                    if top > 1 << 24:
                        why = 'size'
                        break
                    set_ = bytearray(top)
                    for k, kind, a, b, s, i, e in E_:
                        if b <= a or a < 0:
                            continue
                        if kind == 'w':
                            set_[a:b] = b'\1' * (b - a)
                        elif kind == 'c':
                            set_[a:b] = set_[s:s + b - a]
                        else:
                            done += 1
                            if b > top or 0 in set_[a:b]:
                                emit(o, i, False, 'bytes %d to %d are read before anything sets them (%s)' % (a, b, say(e)))
                                bad = True
                                break
                    if not bad and result is not None and size is not None:
                        done += 1
                        if 0 in set_[:size]:
                            emit(o, result, False, 'byte %d of the %d of the result is never set (%s)' % (set_.index(0), size, say(env)))
                            bad = True
                    if bad:
                        break
                if why or bad:
                    break
            if not bad:
                emit(o, (rs or [(result,)])[0][0], None if why or not done else True, why or '%d reads of elements set before' % done)
