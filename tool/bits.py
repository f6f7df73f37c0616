"""Abstract interpretation of small functions over affine terms and bit vectors whose bits carry their provenance.

A value is an affine term (integer or pointer: constant plus multiples of atoms) or a vector of bits, each 0, 1, unknown, or a named bit of
an atom. Loops are cut at their headers: loop variables are replaced by atoms (or by what the rule asks for), what the body computes for the
next round is an event of the path. Branches on unknown conditions fork; the decisions are part of the path."""
from fn import Stop

TOP = '?'


class Lin:
    __slots__ = ('t', 'c')

    def __init__(self, t, c=0):
        self.t = tuple(sorted(((a, k) for a, k in (t.items() if isinstance(t, dict) else t) if k), key=repr))
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.c == o.c

    def __hash__(self):
        return hash((self.t, self.c))

    def __repr__(self):
        s = ['%s%s' % ('' if k == 1 else '%d*' % k, name(a)) for a, k in self.t]
        if self.c or not s:
            s.append(str(self.c))
        return ' + '.join(s)


def name(a):
    if not isinstance(a, tuple):
        return str(a)
    if a[0] == 'ld':
        return '[%r]%d' % (a[1], 8 * a[2])
    if a[0] == 'bv':
        return 'bits(%s)' % ','.join(map(name, a[1][:3]))
    if a[0] == 'c':
        return '(%r %s %r)' % (a[2], a[1], a[3])
    return ':'.join(map(name, a))


def K(n):
    return Lin((), n)


def atom(a):
    return Lin(((a, 1),))


def ladd(a, b, k=1):
    d = dict(a.t)
    for x, n in b.t:
        d[x] = d.get(x, 0) + k * n
    return Lin(d, a.c + k * b.c)


def lmul(a, k):
    return Lin([(x, n * k) for x, n in a.t], a.c * k)


def const(v):
    """the number a value stands for, or None"""
    if isinstance(v, Lin):
        return v.c if not v.t else None
    if isinstance(v, tuple) and all(b in (0, 1) for b in v):
        return sum(b << i for i, b in enumerate(v))
    return None


def neg(b):
    if b in (0, 1):
        return 1 - b
    if b == TOP:
        return TOP
    return b[1] if isinstance(b, tuple) and b[0] == 'not' else ('not', b)


def low_const(l):
    """(k, coefficient-divided rest) when every coefficient is a multiple of 2^k, the most"""
    k = 64
    for _, n in l.t:
        k = min(k, (n & -n).bit_length() - 1)
    return k


def bits(v, w):
    if isinstance(v, tuple):
        return v[:w] + (0,) * (w - len(v))
    if not isinstance(v, Lin):
        return (TOP,) * w
    if not v.t:
        return tuple((v.c >> i) & 1 for i in range(w))
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        a = v.t[0][0]
        if a[0] == 'bv':
            return bits(a[1], w)
        return tuple((a, i) for i in range(w))
    k = low_const(v)
    if k:
        k = min(k, w)
        hi = Lin([(a, n >> k) for a, n in v.t], v.c >> k)
        return tuple((v.c >> i) & 1 for i in range(k)) + bits(hi, w - k)
    return tuple((('sum', v), i) for i in range(w))


def lin(v):
    if isinstance(v, Lin):
        return v
    if v is None:
        return None
    c = const(v)
    if c is not None:
        return K(c)
    n = len(v)
    while n and v[n - 1] == 0:
        n -= 1
    k = 0
    while v[k] in (0, 1):
        k += 1
    low = sum(b << i for i, b in enumerate(v[:k]))
    h = v[k:n]
    if all(isinstance(b, tuple) and len(b) == 2 and b[0] == h[0][0] and b[1] == i for i, b in enumerate(h)) and h[0][0] != 'not' and len(h) + (len(v) - n) + k >= min(len(v), 8) and (len(v) - n in (0, 32, 48, 56) or len(h) == 1):
        a = h[0][0]
        x = a[1] if a[0] == 'sum' else atom(a)
        return ladd(lmul(x, 1 << k), K(low))
    return ladd(lmul(atom(('bv', h)), 1 << k), K(low))


class Scaled:
    """a number times a floating-point constant"""
    def __init__(self, x, k):
        self.x, self.k = x, k


class Path:
    def __init__(self):
        self.dec = {}
        self.events = []
        self.end = None
        self.val = {}

    def ev(self, kind):
        return [e for e in self.events if e[0] == kind]

    def __repr__(self):
        return '\n'.join('  ' + repr(e) for e in self.events) + '\n  END %r\n  IF %s' % (self.end, ' & '.join('%s=%d' % (name(k), v) for k, v in self.dec.items()))


class Machine:
    """hooks: load(addr, size) -> value or None; header(h, phis, first) -> {phi id: value} to go on with, or None to replace every phi by an atom;
    call(callee, dem, args) -> value or None"""

    def __init__(self, F, args, load=None, header=None, call=None, limit=4000, decide=None, unroll=(), keep=None):
        self.F, self.args = F, args
        self.hload, self.hheader, self.hcall, self.hdecide = load, header, call, decide
        self.blk = {b['id']: b for b in F['blocks']}
        self.entry = F['blocks'][0]['id']
        self.heads = {l['header']: l for l in F['loops']}
        self.limit = limit
        self.unroll = set(unroll)
        self.keep = keep

    def paths(self, most=4096):
        out, pre = [], []
        while True:
            self.choice, self.n = pre, 0
            p = self.run()
            if p.end[0] != 'impossible':
                # what a later branch decided also holds for values taken before it
                p.events = [tuple(self.known(x) for x in e) if e[0] in ('store', 'alloc') else
                            e[:3] + ([self.known(x) for x in e[3]],) + e[4:] if e[0] == 'call' else e for e in p.events]
                if p.end[0] == 'ret':
                    p.end = (p.end[0],) + tuple(self.known(x) for x in p.end[1:])
                elif p.end[0] == 'back':
                    p.end = p.end[:2] + ({k: self.known(x) for k, x in p.end[2].items()},)
                out.append(p)
            if len(out) > most:
                raise Stop('too many paths')
            pre = self.choice[:self.n]
            while pre and pre[-1] == 1:
                pre.pop()
            if not pre:
                return out
            pre[-1] = 1

    def fork(self, b):
        """the value of an unknown bit on this path"""
        flip = 0
        while isinstance(b, tuple) and b[0] == 'not':
            b, flip = b[1], 1 - flip
        if b in (0, 1):
            return b ^ flip
        if b == TOP:
            raise Stop('branch on an unknown value')
        if b in self.p.dec:
            return self.p.dec[b] ^ flip
        v = self.hdecide(b, self.p) if self.hdecide else None
        if v is None:
            if self.n == len(self.choice):
                self.choice.append(0)
            v = self.choice[self.n]
            self.n += 1
        self.p.dec[b] = v
        return v ^ flip

    def known(self, v):
        """v with decided bits replaced"""
        if isinstance(v, tuple):
            return tuple(self.kbit(b) for b in v)
        if isinstance(v, Lin) and any(a[0] == 'bv' for a, k in v.t):
            r = K(v.c)
            for a, k in v.t:
                if a[0] == 'bv':
                    h = tuple(self.kbit(b) for b in a[1])
                    r = ladd(r, lmul(lin(h) if h != a[1] else atom(a), k))
                else:
                    r = ladd(r, lmul(atom(a), k))
            return r
        return v

    def kbit(self, b):
        if isinstance(b, tuple):
            if b[0] == 'not':
                return neg(self.kbit(b[1]))
            return self.p.dec.get(b, b)
        return b

    def val(self, o):
        k = o[0]
        if k == 'v':
            return self.known(self.env.get(o[1]))
        if k == 'i':
            return K(int(o[2]) if o[1] > 1 else int(o[2]) & 1)
        if k == 'null':
            return K(0)
        if k == 'g':
            return atom(('g', o[1]))
        return None

    def run(self):
        self.p = p = Path()
        self.env = {}
        self.mem = {}
        self.epoch = 0
        for a, v in zip(self.F['args'], self.args):
            self.env[a['id']] = v
        b, prev, steps, seen = self.entry, None, 0, set()
        self.fresh = {}
        while True:
            steps += 1
            if steps > self.limit:
                raise Stop('%s: does not end' % self.F['dem'])
            ins = self.blk[b]['ins']
            phis = [i for i in ins if i['op'] == 'phi']
            new = {}
            for i in phis:
                src = [o for q, o in i['in'] if q == prev]
                new[i['id']] = self.val(src[0]) if src else None
            if b in self.heads and b not in self.unroll:
                if b in seen:
                    p.events.append(('back', b, new))
                    p.end = ('back', b, new)
                    p.val = dict(self.env)
                    return p
                seen.add(b)
                p.events.append(('arrive', b, new, len(p.dec)))
                self.epoch += 1
                self.mem = {}
                r = self.hheader(b, {i['id']: (i, new[i['id']]) for i in phis}, p) if self.hheader else None
                new = {i['id']: (r or {}).get(i['id'], atom(('phi', i['id']))) for i in phis}
            self.env.update(new)
            nxt = None
            for i in ins:
                op = i['op']
                if op == 'phi':
                    continue
                if op == 'br':
                    if len(i['ops']) == 1:
                        nxt = i['ops'][0][1]
                    else:
                        c = self.val(i['ops'][0])
                        c = bits(c, 1)[0] if c is not None else TOP
                        nxt = i['ops'][2][1] if self.fork(c) else i['ops'][1][1]      # operands as LLVM keeps them: condition, false, true
                elif op == 'switch':
                    v = self.val(i['ops'][0])
                    nxt = i['ops'][1][1]
                    for cv, t in i['cases']:
                        c = self.cmp('eq', v, self.val(cv), 64)
                        if self.fork(c[0]):
                            nxt = t
                            break
                elif op == 'ret':
                    p.end = ('ret', self.val(i['ops'][0]) if i['ops'] else None)
                    return p
                elif op == 'unreachable':
                    p.end = ('dead',)
                    return p
                else:
                    v = self.step(i)
                    if v is not None:
                        self.env[i['id']] = v
            prev, b = b, nxt

    W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64}

    def step(self, i):
        op, w = i['op'], self.W.get(i['ty'])
        if op == 'getelementptr':
            r = lin(self.val(i['ops'][0]))
            if r is None:
                return None
            r = ladd(r, K(i['off']))
            for o, k in i['var']:
                x = self.val(o)
                x = self.signed(x, o) if x is not None else None
                if x is None:
                    return None
                r = ladd(r, lmul(x, k))
            return r
        if op == 'load':
            a = lin(self.val(i['ops'][0]))
            if a is None or w is None:
                return None
            v = self.load(a, i['sz'], i)
            self.p.events.append(('load', a, i['sz'], v, i))
            return v
        if op == 'store':
            a, v = lin(self.val(i['ops'][1])), self.val(i['ops'][0])
            if a is None:
                raise Stop('store to an unknown address')
            self.p.events.append(('store', a, i['sz'], v, i))
            self.store(a, i['sz'], v)
            return None
        if op == 'call':
            return self.call(i, w)
        if op == 'alloca':
            return atom(('new', i['id']))
        if op in ('uitofp', 'sitofp'):
            x = lin(self.val(i['ops'][0]))
            return Scaled(x, 1.0) if x is not None else None
        if op == 'fmul':
            for x, y in (i['ops'], i['ops'][::-1]):
                if y[0] == 'f' and isinstance(self.val(x), Scaled):
                    x = self.val(x)
                    return Scaled(x.x, x.k * float(y[2]))
            return None
        if op in ('fptoui', 'fptosi'):
            x = self.val(i['ops'][0])
            return atom(('scaled', x.k, x.x)) if isinstance(x, Scaled) else None
        if w is None:
            return None
        v = [self.val(o) for o in i['ops']]
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            return self.conv(op, v[0], i['ops'][0], w)
        if any(x is None for x in v):
            return None
        if op == 'icmp':
            return self.cmp(i['pred'], v[0], v[1], self.width(i['ops'][0]))
        if op == 'select':
            c = bits(v[0], 1)[0]
            return v[1] if self.fork(c) else v[2]
        if op == 'or' and i.get('disjoint') and (isinstance(v[0], Lin) and v[0].t or isinstance(v[1], Lin) and v[1].t):
            op = 'add'
        return self.arith(op, v[0], v[1], w)

    def width(self, o):
        if o[0] == 'i':
            return o[1]
        if o[0] == 'v':
            t = self.tys().get(o[1])
            return self.W.get(t, 64)
        return 64

    def tys(self):
        if not hasattr(self, '_t'):
            self._t = {i['id']: i['ty'] for b in self.F['blocks'] for i in b['ins']}
            self._t.update({a['id']: a['ty'] for a in self.F['args']})
        return self._t

    def signed(self, x, o):
        c = const(x)
        if c is not None:
            w = self.width(o)
            c &= (1 << w) - 1
            return K(c - (1 << w) if c >> (w - 1) else c)
        return lin(x)

    def conv(self, op, x, o, w):
        if x is None:
            return None
        n = self.width(o)
        if op == 'zext':
            c = const(x)
            if c is not None:
                return K(c & ((1 << n) - 1))
            return x if isinstance(x, Lin) else bits(x[:n], w)
        if op == 'sext':
            if isinstance(x, tuple) and const(x) is None:
                return x[:n] + (x[n - 1] if x[n - 1] in (0, 1, TOP) else 0,) * (w - n)     # counters and indices are not negative
            return self.signed(x, o) if const(x) is not None else x
        if op == 'trunc':
            if isinstance(x, Lin) and x.t and w == 32:
                return x
            return bits(x, w)
        return x

    def arith(self, op, a, b, w):
        ca, cb = const(a), const(b)
        m = (1 << w) - 1
        if op in ('add', 'sub'):
            if ca is not None and cb is not None:
                return K((ca + cb if op == 'add' else ca - cb)) if abs(ca) < 1 << 62 and abs(cb) < 1 << 62 else K((ca + cb if op == 'add' else ca - cb) & m)
            if op == 'add' and isinstance(a, tuple) and isinstance(b, tuple) and all(x == 0 or y == 0 for x, y in zip(bits(a, w), bits(b, w))):
                return self.arith('or', a, b, w)
            return ladd(lin(a), lin(b), 1 if op == 'add' else -1)
        if op == 'mul':
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is None:
                return atom(('mul',) + tuple(sorted((lin(a), lin(b)), key=repr)))
            if isinstance(a, Lin):
                return lmul(a, cb)
            if cb > 0 and cb & (cb - 1) == 0:
                return self.arith('shl', a, K(cb.bit_length() - 1), w)
            return lmul(lin(a), cb)
        if op in ('and', 'or', 'xor'):
            if op == 'and' and isinstance(a, Lin) and a.t and cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
                k = cb.bit_length()
                if low_const(a) >= k:
                    return K(a.c & cb)
            x, y = bits(a, w), bits(b, w)
            f = {'and': self.band, 'or': self.bor, 'xor': self.bxor}[op]
            return tuple(f(p, q) for p, q in zip(x, y))
        if op in ('shl', 'lshr', 'ashr'):
            if cb is None:
                return None
            cb &= m
            if cb >= w:
                return (TOP,) * w
            if op == 'shl':
                if isinstance(a, Lin) and (a.t or 0 <= a.c < 1 << 30):
                    return lmul(a, 1 << cb) if a.t or (a.c << cb) <= m else bits(K((a.c << cb) & m), w)
                x = bits(a, w)
                return (0,) * cb + x[:w - cb]
            if isinstance(a, Lin) and a.t and low_const(a) >= cb:
                return Lin([(t, n >> cb) for t, n in a.t], a.c >> cb)
            x = bits(a, w)
            return x[cb:] + ((x[w - 1],) if op == 'ashr' else (0,)) * cb
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if ca is not None and cb:
                if op[0] == 'u':
                    ca, cb = ca & m, cb & m
                q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
                return K(q if op[1:] == 'div' else ca - q * cb)
            if cb and cb > 0 and cb & (cb - 1) == 0:
                k = cb.bit_length() - 1
                return self.arith('lshr', a, K(k), w) if op[1:] == 'div' else self.arith('and', a, K(cb - 1), w)
            return atom((op, lin(a), lin(b)))
        return None

    def band(self, x, y):
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1 or x == y:
            return x
        return TOP

    def bor(self, x, y):
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y
        if y == 0 or x == y:
            return x
        return TOP

    def bxor(self, x, y):
        if x in (0, 1):
            return neg(y) if x else y
        if y in (0, 1):
            return neg(x) if y else x
        return 0 if x == y and x != TOP else TOP

    def cmp(self, pred, a, b, w):
        if a is None or b is None:
            return (TOP,)
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            m = (1 << w) - 1
            ca, cb = ca & m, cb & m
            if pred[0] == 's':
                ca, cb = [x - (1 << w) if x >> (w - 1) else x for x in (ca, cb)]
            return (int({'eq': ca == cb, 'ne': ca != cb, 'lt': ca < cb, 'le': ca <= cb, 'gt': ca > cb, 'ge': ca >= cb}[pred if pred in ('eq', 'ne') else pred[1:]]),)
        flip = 0
        if pred in ('ne',):
            pred, flip = 'eq', 1
        elif pred not in ('eq',):
            s, pred = pred[0], pred[1:]
            if pred in ('gt', 'le'):
                a, b, ca, cb = b, a, cb, ca
            if pred in ('le', 'ge'):
                flip = 1
            pred = 'lt'                 # gt(a,b) = lt(b,a); le(a,b) = !lt(b,a); ge(a,b) = !lt(a,b)
            # a sign test of a bit vector
            if s == 's' and isinstance(a, tuple) and len(a) == w and cb == 0:
                r = a[w - 1]
                return (neg(r) if flip else r,)
            if isinstance(a, Lin) and isinstance(b, Lin):
                d = ladd(a, b, -1)
                if not d.t:
                    return (int(d.c < 0) ^ flip,)
        if pred == 'eq':
            if isinstance(a, tuple) or isinstance(b, tuple):
                if (cb is not None or ca is not None) or isinstance(a, tuple) and isinstance(b, tuple):
                    x, y = bits(a, w), bits(b, w)
                    rest = [(p, q) for p, q in zip(x, y) if p != q]
                    if any(p in (0, 1) and q in (0, 1) for p, q in rest):
                        return (0 ^ flip,)
                    if not rest:
                        return (1 ^ flip,)
                    if len(rest) == 1 and TOP not in rest[0] and (rest[0][0] in (0, 1) or rest[0][1] in (0, 1)):
                        r = self.bxor(*rest[0])
                        return (r if flip else neg(r),)
            d = ladd(lin(a), lin(b), -1)
            if not d.t:
                return (int(d.c == 0) ^ flip,)
            la, lb = lin(a), lin(b)
            a, b = (la, lb) if repr(la) > repr(lb) or not lb.t else (lb, la)
            if not a.t:
                a, b = b, a
        r = ('c', pred, lin(a), lin(b))
        return (neg(r) if flip else r,)

    # ------------------------------------------------------------ memory
    def load(self, a, n, i):
        if self.hload:
            r = self.hload(a, n, self)
            if r is not None:
                return r
        out = []
        miss = 0
        for k in range(n):
            b = self.mem.get((a.t, a.c + k))
            if b is None:
                miss += 1
                out += [(('ld', ladd(a, K(k)), 1, self.epoch), j) for j in range(8)]
            else:
                out += list(b)
        if miss == n:
            return tuple((('ld', a, n, self.epoch), j) for j in range(8 * n))
        return self.known(tuple(out))

    def store(self, a, n, v):
        x = bits(v, 8 * n) if v is not None else (TOP,) * (8 * n)
        for k in range(n):
            self.mem[(a.t, a.c + k)] = x[8 * k:8 * k + 8]

    def call(self, i, w):
        c, d = i.get('callee') or '', i.get('dem') or ''
        ops = [o for o in i['ops']]
        if c.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')):
            return None
        args = [self.val(o) if o[0] in ('v', 'i', 'null', 'g') else None for o in ops]
        if c == 'malloc' or c == 'calloc' or c == '_Znam' or c == '_Znwm':
            n = self.fresh[i['id']] = self.fresh.get(i['id'], 0) + 1
            r = ('new', i['id'], n)
            size = args[0] if c != 'calloc' else self.arith('mul', args[0], args[1], 64)
            self.p.events.append(('alloc', atom(r), lin(size), i))
            if c == 'calloc':
                self.p.events.append(('set', atom(r), K(0), lin(size), i))
            return atom(r)
        if c in ('free', '_ZdaPv', '_ZdlPv', '_ZdlPvm'):
            self.p.events.append(('free', lin(args[0]), i))
            return None
        if c in ('printf', 'puts', 'putchar', 'fprintf'):
            return None
        if c in ('exit', 'abort'):
            self.p.events.append(('exit', i))
            return None
        if c.startswith('llvm.memset') or c == 'memset':
            n = lin(args[2])
            self.p.events.append(('set', lin(args[0]), args[1], n, i))
            a, k = lin(args[0]), const(n)
            if k is not None and k <= 256:
                for j in range(k):
                    self.mem[(a.t, a.c + j)] = bits(args[1], 8)
            return None
        if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c in ('memcpy', 'memmove'):
            d_, s_, n = lin(args[0]), lin(args[1]), lin(args[2])
            self.p.events.append(('copy', d_, s_, n, i))
            k = const(n)
            if k is not None and k <= 64:
                v = self.load(s_, k, i)
                self.store(d_, k, v)
            return None
        if c.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            p = self.cmp(c[5] + 'lt', args[0], args[1], w)[0]
            f = self.fork(p)
            return args[0] if (f == 1) == ('min' in c) else args[1]
        if c.startswith('llvm.bswap'):
            x = bits(args[0], w)
            return tuple(b for k in range(w // 8 - 1, -1, -1) for b in x[8 * k:8 * k + 8])
        if c.startswith(('llvm.fshl', 'llvm.fshr')):
            k = const(args[2])
            if k is None:
                return None
            k %= w
            x = bits(args[1], w) + bits(args[0], w)
            return x[w - k:2 * w - k] if 'fshl' in c else x[k:k + w]
        n = self.fresh[i['id']] = self.fresh.get(i['id'], 0) + 1
        res = atom(('ret', i['id'], n)) if w else None
        self.p.events.append(('call', c, d, args, res, i))
        r = self.hcall(c, d, args, self, res) if self.hcall else None
        if r is None:
            self.epoch += 1
            self.mem = {k: v for k, v in self.mem.items() if self.keep and self.keep(k)}
            return res
        return r
