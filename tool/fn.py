"""A function of the canonicalised IR as gated SSA: values as expressions, blocks with path conditions, loops with trip counts."""
import json
import itertools
import re
from expr import *

PURE = {'cpsz_ftk_lerp3', 'pow', 'log2', 'log', 'log10', 'exp2', 'exp', 'sqrt', 'cbrt', 'ceil', 'floor', 'sin', 'cos', 'atan2', 'hypot', 'fmod', 'round', 'trunc', 'acos', 'lround', 'rint', 'nearbyint'}
ALLOC = {'malloc', 'calloc', '_Znwm', '_Znam'}


class Stop(Exception):
    """the machinery cannot decide: neither holds nor violated"""


class Module:
    def __init__(self, path):
        self.j = json.load(open(path))
        self.fj = {f['name']: f for f in self.j['functions']}
        self.cache = {}
        self.globals = {g['name']: g for g in self.j['globals']}

    def fn(self, name):
        if name not in self.cache:
            self.cache[name] = Fn(self, self.fj[name])
        return self.cache[name]

    def find(self, regex):
        return [n for n, f in self.fj.items() if re.search(regex, f['dem'])]


class Loop:
    pass


class Fn:
    def __init__(self, mod, j):
        self.mod = mod
        self.j = j
        self.name = j['name']
        self.dem = j['dem']
        m = re.search(r'([\w~]+)(<[^()]*>)?\(', self.dem)
        self.short = m.group(1) if m else self.dem
        t = re.search(r'%s<(float|double)' % re.escape(self.short), self.dem)
        self.T = t.group(1) if t else None
        self.ins = {}
        self.blk = {}
        self.order = []
        self.args = []
        for i, a in enumerate(j['args']):
            e = mk('arg', self.name, i, a['name'])
            self.args.append(e)
            self.ins[a['id']] = {'id': a['id'], 'op': 'arg', 'ty': a['ty'], 'e': e}
            if a['ty'] == 'i64':
                assume_nonneg(e)
            if a['ty'] in ('i64', 'i32') and re.match(r'([^(]* )?\*?sz3?_(de)?compress', self.dem):
                assume_nonneg(e)
                assume_fact(padd(e, I(-1)))      # grids, blocks and meshes are not empty
                assume_fact1(e)
        for b in j['blocks']:
            self.blk[b['id']] = b
            b['pred'] = []
            for n, i in enumerate(b['ins']):
                i['b'] = b['id']
                i['n'] = n
                self.ins[i['id']] = i
        self.entry = j['blocks'][0]['id']
        for b in j['blocks']:
            for s in b['succ']:
                if b['id'] not in self.blk[s]['pred']:
                    self.blk[s]['pred'].append(b['id'])
        self.loops = {}
        self.inner = {b: -1 for b in self.blk}
        for l in j['loops']:
            L = Loop()
            L.id, L.parent, L.header, L.blocks, L.depth = l['id'], l['parent'], l['header'], set(l['blocks']), l['depth']
            L.btcj = l['btc']
            L.children = []
            self.loops[L.id] = L
            L.iv = mk('iv', self.name, L.id)
        for L in sorted(self.loops.values(), key=lambda l: l.depth):
            for b in L.blocks:
                self.inner[b] = L.id
            if L.parent >= 0:
                self.loops[L.parent].children.append(L.id)
        for L in self.loops.values():
            L.latches = [b for b in self.blk[L.header]['pred'] if b in L.blocks]
            L.exits = sorted((b, s) for b in L.blocks for s in self.blk[b]['succ'] if s not in L.blocks)
            L.exits = [e for i, e in enumerate(L.exits) if e not in L.exits[:i]]
            # exits that end in a noreturn block do not count
            L.exits = [e for e in L.exits if not self.noreturn(e[1])]
            L.entries = [b for b in self.blk[L.header]['pred'] if b not in L.blocks]
        self.rpo()
        self.doms()
        self._x = {}
        self._pc = {}
        self._stores = None
        self._busy = set()
        self._allocas = None
        for L in sorted(self.loops.values(), key=lambda l: l.depth):
            t = self.trip(L.id)
            if t.k != 'trip':
                assume_fact(padd(t, I(-1), pscale(L.iv, -1)))

    def noreturn(self, b):
        """every path from block b ends the process"""
        if not hasattr(self, '_nr'):
            nr = {x for x in self.blk if self.blk[x]['ins'][-1]['op'] == 'unreachable'}
            ch = True
            while ch:
                ch = False
                for x in self.blk:
                    if x not in nr and self.blk[x]['succ'] and all(y in nr for y in self.blk[x]['succ']):
                        nr.add(x)
                        ch = True
            self._nr = nr
        return b in self._nr

    # ------------------------------------------------------------- order
    def rpo(self):
        seen, post = set(), []
        st = [(self.entry, iter(self.blk[self.entry]['succ']))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blk[s]['succ'])))
                    break
            else:
                post.append(b)
                st.pop()
        base = post[::-1]
        # a loop's blocks come before the blocks after the loop
        idx = {b: i for i, b in enumerate(base)}
        order, done = [], set()

        def region(L):
            """topological order of a region with child loops collapsed"""
            blocks = self.loops[L].blocks if L >= 0 else set(seen)
            kids = self.loops[L].children if L >= 0 else [l.id for l in self.loops.values() if l.parent < 0]
            rep = {}
            for b in blocks:
                rep[b] = b
            for k in kids:
                for b in self.loops[k].blocks:
                    if b in rep:
                        rep[b] = ('L', k)
            head = self.loops[L].header if L >= 0 else self.entry
            succ = {}
            for b in blocks:
                for s in self.blk[b]['succ']:
                    if s in rep and s != head and rep[s] != rep[b]:
                        succ.setdefault(rep[b], set()).add(rep[s])
            out, mark = [], set()

            def dfs(n):
                stack = [(n, iter(sorted(succ.get(n, ()), key=lambda x: -idx[x if not isinstance(x, tuple) else self.loops[x[1]].header])))]
                mark.add(n)
                while stack:
                    x, it = stack[-1]
                    for y in it:
                        if y not in mark:
                            mark.add(y)
                            stack.append((y, iter(sorted(succ.get(y, ()), key=lambda z: -idx[z if not isinstance(z, tuple) else self.loops[z[1]].header]))))
                            break
                    else:
                        out.append(x)
                        stack.pop()
            dfs(rep[head])
            for n in reversed(out):
                if isinstance(n, tuple):
                    region(n[1])
                else:
                    order.append(n)
        region(-1)
        self.order = order
        self.pos = {b: i for i, b in enumerate(order)}

    def key(self, i):
        return (self.pos[i['b']], i['n'])

    def doms(self):
        idom = {self.entry: self.entry}
        ch = True
        order = [b for b in self.order]
        while ch:
            ch = False
            for b in order:
                if b == self.entry:
                    continue
                new = None
                for p in self.blk[b]['pred']:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.pos[x] > self.pos[y]:
                                    x = idom[x]
                                while self.pos[y] > self.pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.entry or b not in self.idom:
                return False
            b = self.idom[b]

    # ------------------------------------------------------------- conditions
    def region_in(self, b, L):
        """is block b in the region of loop L (possibly inside a child loop)"""
        return L < 0 or b in self.loops[L].blocks

    def child_of(self, b, L):
        """the child loop of region L that contains b, or None if b is directly in L"""
        k = self.inner[b]
        last = None
        while k != L:
            if k < 0:
                return None
            last = k
            k = self.loops[k].parent
        return last

    def pc(self, b, L=None):
        """condition, over one iteration of the innermost loop containing b, under which b runs"""
        if L is None:
            L = self.inner[b]
        key = (b, L)
        if key in self._pc:
            return self._pc[key]
        head = self.loops[L].header if L >= 0 else self.entry
        if b == head:
            r = 1
        else:
            r = 0
            for p in self.blk[b]['pred']:
                r = B.Or(r, self.edge(p, b, L))
        self._pc[key] = r
        return r

    def edge(self, p, s, L):
        """condition of taking the edge p -> s, seen from region L"""
        if p not in self.pos:
            return 0
        k = self.child_of(p, L)
        if k is not None:
            Lk = self.loops[k]
            inc = 0
            for q in Lk.entries:
                inc = B.Or(inc, self.edge(q, Lk.header, L))
            if self.noreturn(s):
                return 0
            if len(Lk.exits) == 1:
                return inc
            ex = Lk.exits
            i = ex.index((p, s))
            g = inc
            for n in range(i):
                g = B.And(g, B.Not(B.atom(mk('exit', self.name, k, n))))
            if i < len(ex) - 1:
                g = B.And(g, B.atom(mk('exit', self.name, k, i)))
            return g
        return B.And(self.pc(p, L), self.branch(p, s))

    def branch(self, p, s):
        t = self.blk[p]['ins'][-1]
        live = {x for x in self.blk[p]['succ'] if not self.noreturn(x)}
        if live == {s}:
            return 1              # the other way out ends the process
        if t['op'] == 'br':
            if len(t['ops']) == 1:
                return 1
            c, f, tr = t['ops']
            # operands: condition, false destination, true destination
            g = self.C(c)
            r = 0
            if tr[1] == s:
                r = B.Or(r, g)
            if f[1] == s:
                r = B.Or(r, B.Not(g))
            return r
        if t['op'] == 'switch':
            v = self.X(t['ops'][0])
            r, rest = 0, 1
            for cv, d in t['cases']:
                g = icmp('eq', v, self.X(cv))
                rest = B.And(rest, B.Not(g))
                if d == s:
                    r = B.Or(r, g)
            if t['ops'][1][1] == s:
                r = B.Or(r, rest)
            return r
        if t['op'] in ('invoke',):
            return 1
        return 1

    # ------------------------------------------------------------- values
    def C(self, o):
        """operand of type i1 as a condition"""
        if o[0] == 'i':
            return 1 if int(o[2]) else 0
        if o[0] == 'undef':
            return 0
        if o[0] != 'v':
            return B.atom(mk('copaque', json.dumps(o)))
        key = ('c', o[1])
        if key in self._x:
            return self._x[key]
        r = self._cond(self.ins[o[1]])
        self._x[key] = r
        return r

    def _cond(self, i):
        op = i['op']
        if op == 'icmp':
            if i['ops'][0][0] == 'v' and self.ins[i['ops'][0][1]]['ty'] == 'i1':
                a, b = self.C(i['ops'][0]), self.C(i['ops'][1])
                x = B.ite(a, B.Not(b), b)
                return x if i['pred'] == 'ne' else B.Not(x)
            return icmp(i['pred'], self.X(i['ops'][0]), self.X(i['ops'][1]))
        if op == 'fcmp':
            return fcmp(i['pred'], self.X(i['ops'][0]), self.X(i['ops'][1]))
        if op == 'and':
            return B.And(self.C(i['ops'][0]), self.C(i['ops'][1]))
        if op == 'or':
            return B.Or(self.C(i['ops'][0]), self.C(i['ops'][1]))
        if op == 'xor':
            a, b = self.C(i['ops'][0]), self.C(i['ops'][1])
            return B.ite(a, B.Not(b), b)
        if op == 'select':
            return B.ite(self.C(i['ops'][0]), self.C(i['ops'][1]), self.C(i['ops'][2]))
        if op == 'freeze':
            return self.C(i['ops'][0])
        if op == 'trunc':
            v = self.X(i['ops'][0])
            return tobool(v)
        if op == 'phi':
            L = self.inner[i['b']]
            if L >= 0 and self.loops[L].header == i['b']:
                return B.atom(mk('mu', self.name, L, i['id']))
            r = 0
            for p, o in i['in']:
                e = self.edge(p, i['b'], L)
                if e:
                    r = B.Or(r, B.And(e, self.C(o)))
            return B.constrain(r, self.pc(i['b'], L))
        if op == 'arg':
            return B.atom(i['e'])
        if op == 'call':
            return B.atom(self.call(i))
        if op == 'load':
            return B.atom(self.X(['v', i['id']]))
        return B.atom(mk('cop', self.name, i['id']))

    def X(self, o):
        t = o[0]
        if t == 'i':
            if o[1] == 1:
                return I(1 if int(o[2]) else 0)
            return I(int(o[2]))
        if t == 'f':
            return F(o[2])
        if t == 'null':
            return I(0)
        if t in ('undef', 'md', 'asm'):
            return mk('undef')
        if t == 'g':
            return mk('g', o[1])
        if t == 'c':
            return mk('const', o[1])
        if t == 'e':
            return mk('ce', json.dumps(o))
        r = self._x.get(o[1])
        if r is None:
            i = self.ins[o[1]]
            if i['ty'] == 'i1':
                g = self.C(o)
                r = I(g) if g in (0, 1) else mk('b2i', g)
            else:
                r = self.value(i)
            self._x[o[1]] = r
        return r

    def scev(self, s, L):
        """SCEV term to expression, or None"""
        k = s[0]
        if k == 'const':
            return I(int(s[1]))
        if k == 'unk':
            o = s[1]
            return self.X(o)
        if k in ('trunc', 'zext', 'sext', 'ptrtoint'):
            return self.scev(s[2], L)
        if k in ('add', 'mul'):
            acc = None
            for x in s[1:]:
                y = self.scev(x, L)
                if y is None:
                    return None
                acc = y if acc is None else (iadd(acc, y) if k == 'add' else imul(acc, y))
            return acc
        if k in ('umax', 'smax'):
            xs = [self.scev(x, L) for x in s[1:]]
            if None in xs:
                return None
            # the loop is entered only under its guard, so max(1, n) is n
            ys = [x for x in xs if intval(x) is None or intval(x) > 1]
            if len(ys) == 1:
                return ys[0]
            return mk(k, *sorted(xs))
        if k == 'umin' or k == 'smin':
            xs = [self.scev(x, L) for x in s[1:]]
            return None if None in xs else mk('umin', *sorted(xs))
        if k == 'udiv':
            a, b = self.scev(s[1], L), self.scev(s[2], L)
            return None if a is None or b is None else div('udiv', a, b)
        if k == 'rec':
            if len(s) != 4 or s[1] < 0:
                return None
            a, b = self.scev(s[2], L), self.scev(s[3], L)
            if a is None or b is None:
                return None
            return iadd(a, imul(b, self.loops[s[1]].iv))
        return None

    def trip(self, L):
        """number of iterations of loop L, once entered"""
        Lp = self.loops[L]
        if not hasattr(Lp, 'tripe'):
            r = None
            if len(Lp.exits) == 1:
                b = self.scev(Lp.btcj, L)
                r = None if b is None else iadd(b, I(1))
            if r is None:
                r = self.natural_trip(L)
            Lp.tripe = r if r is not None else mk('trip', self.name, L)
        return Lp.tripe

    def natural_trip(self, L):
        """bottom-tested counting loops that SCEV leaves open: left when the counter c, c+1, ... reaches n"""
        Lp = self.loops[L]
        if len(Lp.exits) != 1 or len(Lp.latches) != 1 or Lp.exits[0][0] != Lp.latches[0]:
            return None
        b, out = Lp.exits[0]
        t = self.blk[b]['ins'][-1]
        if t['op'] != 'br' or len(t['ops']) != 3 or t['ops'][0][0] != 'v':
            return None
        c = self.ins[t['ops'][0][1]]
        stay = t['ops'][1][1] == out                # the loop goes on when the condition holds
        if c['op'] != 'icmp':
            return None
        for x, n in (c['ops'], c['ops'][::-1]):
            s = self.ins[x[1]].get('scev') if x[0] == 'v' else None
            if not s or s[0] != 'rec' or s[1] != L or s[2][0] != 'const' or s[3] != ['const', '1']:
                continue
            p = c['pred'] if x is c['ops'][0] else {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt', 'uge': 'ule', 'ule': 'uge', 'sge': 'sle', 'sle': 'sge'}.get(c['pred'], c['pred'])
            if (p, stay) not in (('eq', False), ('ne', True), ('ult', True), ('slt', True), ('uge', False), ('sge', False)):
                continue
            try:
                v = self.X(n)
            except RecursionError:
                return None
            if v.k in ('undef', 'part') or any(q.k in ('iv', 'mu', 'exitval') and q.a[0] == self.name and (q.a[1] == L or self.is_inside(q.a[1], L)) for q in walk(v)):
                return None
            k = int(s[2][1])
            r = iadd(v, I(1 - k))
            if p in ('eq', 'ne') or k <= 1 and positive(v):
                return r
        return None

    def depends(self, e, L):
        """does e vary with the iterations of loop L (or of loops inside it)"""
        inside = {L}
        ch = True
        while ch:
            ch = False
            for l in self.loops.values():
                if l.parent in inside and l.id not in inside:
                    inside.add(l.id)
                    ch = True
        for x in walk(e, conds=True):
            if x.k in ('iv', 'mu', 'exit', 'exitval', 'trip') and x.a[0] == self.name and x.a[1] in inside:
                return True
            if x.k == 'ld' or x.k == 'ldm':
                return True
            if x.k in ('callv', 'mem', 'ldv') and x.a[0] == self.name and self.ins[x.a[1]]['b'] in self.loops[L].blocks:
                return True
        return False

    def value(self, i):
        op = i['op']
        if op == 'arg':
            return i['e']
        f = getattr(self, 'op_' + op, None)
        if f:
            return f(i)
        if op in ('add', 'sub', 'mul', 'shl'):
            a, b = self.X(i['ops'][0]), self.X(i['ops'][1])
            if op == 'add':
                return iadd(a, b)
            if op == 'sub':
                return iadd(a, imul(I(-1), b))
            if op == 'mul':
                return imul(a, b)
            n = intval(b)
            if n is not None:
                return imul(a, I(2 ** int(n)))
            return imul(a, mk('pow2', b))
        if op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            src = i['ops'][0]
            if op in ('zext', 'sext') and src[0] == 'v' and self.ins[src[1]]['ty'] == 'i1':
                g = self.C(src)
                e = I(g) if g in (0, 1) else mk('b2i', g)
                return e if op == 'zext' else imul(I(-1), e)
            a = self.X(src)
            if op == 'trunc' and i['ty'] == 'i32' and a.k == 'poly':
                a = wrap32(a)
            if op == 'trunc' and i['ty'] in ('i8', 'i16'):
                if a.k == 'part' and all(intval(v) is not None for v, _ in a.a[0]):
                    return a
                return a if intval(a) is not None else mk('trunc', a, i['ty'])
            if op == 'bitcast' and i['ty'] in ('i32', 'i64', 'float', 'double') and src[0] == 'v' and self.ins[src[1]]['ty'] != i['ty']:
                return mk('bits', a, i['ty'])
            if op == 'zext' and src[0] == 'v' and self.ins[src[1]]['ty'] == 'i8' and a.k == 'ld':
                return mk('ld', a.a[0], 'i8u')
            return a
        if op in ('udiv', 'sdiv', 'urem', 'srem', 'ashr', 'lshr', 'and', 'or', 'xor'):
            return self.intop(op, self.X(i['ops'][0]), self.X(i['ops'][1]), i)
        if op == 'fadd':
            return fadd(self.X(i['ops'][0]), self.X(i['ops'][1]))
        if op == 'fsub':
            return fadd(self.X(i['ops'][0]), fneg(self.X(i['ops'][1])))
        if op == 'fmul':
            return fmul(self.X(i['ops'][0]), self.X(i['ops'][1]))
        if op == 'fdiv':
            return fdiv(self.X(i['ops'][0]), self.X(i['ops'][1]))
        if op == 'fneg':
            return fneg(self.X(i['ops'][0]))
        if op == 'fpext':
            return fext(self.X(i['ops'][0]), i['ty'])
        if op == 'fptrunc':
            return ftrunc(self.X(i['ops'][0]), i['ty'])
        if op in ('sitofp', 'uitofp'):
            return i2f(self.X(i['ops'][0]), i['ty'])
        if op in ('fptosi', 'fptoui'):
            return f2i(self.X(i['ops'][0]))
        if op in ('icmp', 'fcmp'):
            return mk('b2i', self.C(['v', i['id']]))
        if op == 'alloca':
            return mk('alloca', self.name, i['id'])
        return mk('opaque', self.name, i['id'])

    def intop(self, op, a, b, i=None):
        if dist(a):
            return mkpart([(self.intop(op, v, b, i), g) for v, g in a.a[0]])
        if dist(b):
            return mkpart([(self.intop(op, a, v, i), g) for v, g in b.a[0]])
        x, y = intval(a), intval(b)
        if x is not None and y is not None and x.denominator == 1:
            x, y = int(x), int(y)
            if op == 'and':
                return I(x & y)
            if op == 'or':
                return I(x | y)
            if op == 'xor':
                return I(x ^ y)
            if op in ('ashr', 'lshr') and x >= 0:
                return I(x >> y)
            if op in ('udiv', 'sdiv') and x >= 0 and y > 0:
                return I(x // y)
            if op in ('urem', 'srem') and x >= 0 and y > 0:
                return I(x % y)
        if op == 'xor' and y == -1:
            return iadd(imul(I(-1), a), I(-1))
        if op == 'xor' and a.k == 'b2i' and y == 1:
            return mk('b2i', B.Not(a.a[0]))
        if op in ('and', 'or') and a.k == 'b2i' and b.k == 'b2i':
            return mk('b2i', (B.And if op == 'and' else B.Or)(a.a[0], b.a[0]))
        if op == 'and' and a.k == 'b2i' and y == 1:
            return a
        if i is not None and i.get('exact') and op == 'ashr' and y == 32 and i['ty'] == 'i64':
            # sign extension from 32 bits: (x << 32) >> 32
            return wrap32(pscale(a, Fraction(1, 2 ** 32))) if a.k != 'part' else imul(mk('poly', (((), Fraction(1, 2 ** 32)),)), a)
        if i is not None and i.get('exact') and y is not None and y > 0:
            return imul(mk('poly', (((), Fraction(1) / (2 ** int(y) if op in ('ashr', 'lshr') else int(y))),)), a)
        if op in ('ashr', 'lshr') and y is not None:
            return div('sdiv', a, I(2 ** int(y)))
        if op in ('udiv', 'sdiv'):
            return div(op, a, b)
        if op == 'or' and y is not None and x is None:
            # disjoint or: (2^k * q) | c  with c < 2^k
            cs = [c for k, c in pmap(a).items()]
            if y > 0 and all(c.denominator == 1 and int(c) % (1 << int(y).bit_length()) == 0 for c in cs):
                return iadd(a, b)
        if op == 'and' and y is not None and y < 0 and (-int(y)) & (-int(y) - 1) == 0:
            # clearing low bits
            return imul(I(-y), div('sdiv', a, I(-y)))
        if op == 'and':
            for u, w in ((a, y), (b, x)):
                if w is not None and w > 0 and u.k == 'udiv' and intval(u.a[1]):
                    m, d = int(w), int(intval(u.a[1]))
                    k = (m & -m).bit_length() - 1
                    if d & (d - 1) == 0 and (m >> k) & ((m >> k) + 1) == 0 and m.bit_length() + d.bit_length() - 1 >= 64:
                        return imul(I(2 ** k), div('udiv', u.a[0], I(d << k)))
        if op in ('and', 'or', 'xor'):
            return mk(op, *sorted((a, b)))
        return mk(op, a, b)

    def op_select(self, i):
        c, a, b = i['ops']
        x, y = self.X(a), self.X(b)
        if c[0] == 'v' and self.ins[c[1]]['op'] == 'fcmp':
            ci = self.ins[c[1]]
            p, q = self.X(ci['ops'][0]), self.X(ci['ops'][1])
            pr = ci['pred'][1:]
            if pr in ('gt', 'ge'):
                p, q = q, p
            if pr in ('lt', 'le', 'gt', 'ge') and ci['pred'] not in ('ord', 'uno'):
                if x is p and y is q:
                    return mkmin(x, y)
                if x is q and y is p:
                    return mkmax(x, y)
        return ite(self.C(c), x, y)

    def op_phi(self, i):
        b = i['b']
        L = self.inner[b]
        if L >= 0 and self.loops[L].header == b:
            return self.header_phi(i, L)
        items = []
        pcb = self.pc(b, L)
        for p, o in i['in']:
            if p not in self.pos:
                continue
            e = self.edge(p, b, L)
            if not e:
                continue
            v = self.X(o)
            k = self.child_of(p, L)
            if k is not None:
                v = self.exit_value(v, k)
            if v.k == 'part' and v.a[1] == 'ite' and len(v.a[0]) <= 4:
                live = [x for x, h in v.a[0] if B.And(h, e)]
                if len(live) == 1:
                    v = live[0]
            items.append((v, e))
        group = {}
        for v, e in items:
            group[v] = B.Or(group.get(v, 0), e)
        if len(group) == 2:
            (v1, e1), (v2, e2) = group.items()
            if not B.And(e1, e2) and B.implies(pcb, B.Or(e1, e2)):
                # any guard between e1 and !e2 selects the same value: prefer one in which a minimum shows
                c1, c2 = B.constrain(e1, pcb), B.constrain(e2, pcb)
                r = [ite(c1, v1, v2)]
                if c2 != B.Not(c1):
                    r += [ite(c2, v2, v1), ite(e1, v1, v2), ite(e2, v2, v1)]
                return next((x for x in r if x.k == 'part' and x.a[1] == 'min'), r[0])
        while len(group) > 2:
            for (v1, e1), (v2, e2) in itertools.combinations(group.items(), 2):
                if not (min_like(v1) and min_like(v2)) or B.And(e1, e2):
                    continue
                e = B.Or(e1, e2)
                if any(a.k == 'flt' and (a.a[0] is v1 and a.a[1] is v2 or a.a[0] is v2 and a.a[1] is v1) for a in B.support(e1)):
                    r = ite(B.constrain(e1, e), v1, v2)
                    if not (r.k == 'part' and r.a[1] == 'min'):
                        r = ite(B.constrain(e2, e), v2, v1)
                    if r.k == 'part' and r.a[1] == 'min':
                        del group[v1], group[v2]
                        group[r] = B.Or(group.get(r, 0), e)
                        break
            else:
                break
        items = [(v, B.constrain(e, pcb)) for v, e in group.items()]
        return mkpart(items)

    def exit_value(self, v, k):
        if not self.depends(v, k):
            return v
        Lk = self.loops[k]
        t = self.trip(k)
        if len(Lk.exits) == 1 and t.k != 'trip':
            w = subst(v, {Lk.iv: iadd(t, I(-1))})
            if not self.depends2(w, k):
                return w
        return mk('exitval', self.name, k, v)

    def depends2(self, e, L):
        """like depends, but a load at an address that does not vary is kept as memory contents after the loop"""
        for x in walk(e, conds=True):
            if x.k in ('iv', 'mu', 'exit', 'trip') and x.a[0] == self.name and (x.a[1] == L or self.is_inside(x.a[1], L)):
                return True
            if x.k in ('ld', 'ldm', 'ldv'):
                return True
        return False

    def is_inside(self, l, L):
        while l >= 0:
            if l == L:
                return True
            l = self.loops[l].parent
        return False

    def header_phi(self, i, L):
        Lp = self.loops[L]
        init = [o for p, o in i['in'] if p not in Lp.blocks]
        nxt = [o for p, o in i['in'] if p in Lp.blocks]
        mu = mk('mu', self.name, L, i['id'])
        if i['id'] in self._busy:
            return mu
        if i['ty'] in ('float', 'double', 'i1') or len(init) != 1 or len(nxt) != 1:
            return mu
        s = i.get('scev')
        if s and s[0] == 'rec' and s[1] == L:
            r = self.scev(s, L)
            if r is not None and not (self.contains_mu(r, i['id'])):
                return r
        # solve p = phi(init, p + d)
        saved = dict(self._x), dict(self._pc)
        self._busy.add(i['id'])
        self._x[i['id']] = mu
        try:
            n = self.X(nxt[0])
        finally:
            self._busy.discard(i['id'])
        self._x, self._pc = saved
        if n is mu:
            return self.X(init[0])
        d = psub(n, mu) if n.k != 'part' and n.k != 'undef' else None
        if d is not None and not self.contains_mu(d, i['id']) and not self.depends(d, L):
            return iadd(self.X(init[0]), imul(d, Lp.iv))
        return mu

    def contains_mu(self, e, pid):
        return any(x.k == 'mu' and x.a[0] == self.name and x.a[2] == pid for x in walk(e, conds=True))

    def phi_parts(self, mu):
        """(initial value, next value) of a loop variable left as mu"""
        i = self.ins[mu.a[2]]
        Lp = self.loops[mu.a[1]]
        init = [o for p, o in i['in'] if p not in Lp.blocks][0]
        nxt = [o for p, o in i['in'] if p in Lp.blocks][0]
        if i['ty'] == 'i1':
            return self.C(init), self.C(nxt)
        return self.X(init), self.X(nxt)

    def op_getelementptr(self, i):
        r = self.X(i['ops'][0])
        if 'off' not in i:
            return mk('opaque', self.name, i['id'])
        r = iadd(r, I(i['off']))
        for o, s in i['var']:
            r = iadd(r, imul(self.X(o), I(s)))
        return r

    def op_extractvalue(self, i):
        return mk('extract', self.X(i['ops'][0]), tuple(i['idx']))

    # ------------------------------------------------------------- memory
    def base(self, p):
        """the object a pointer points into, or None"""
        if p.k == 'part':
            bs = {self.base(v) for v, _ in p.a[0] if intval(v) != 0}
            return bs.pop() if len(bs) == 1 else None
        cand = []
        for m, c in pmap(p).items():
            if len(m) == 1 and c == 1 and m[0].k in ('alloca', 'mem', 'arg', 'g', 'callv', 'mu', 'ld', 'ldm', 'vecdata', 'exitval', 'ldv', 'after', 'opaque', 'extract'):
                x = m[0]
                if x.k == 'arg' and self.j['args'][x.a[1]]['ty'] != 'ptr' and x.a[0] == self.name:
                    continue
                if x.k == 'mu' and x.a[0] == self.name:
                    if self.ins[x.a[2]]['ty'] != 'ptr':
                        continue
                    key = ('base', x)
                    if key not in self._x:
                        self._x[key] = x
                        init, nx = self.phi_parts(x)
                        b = self.base(init)
                        self._x[key] = b if b is not None else x
                    cand.append(self._x[key])
                    continue
                if x.k == 'exitval':
                    b = self.base(x.a[2])
                    if b is not None:
                        cand.append(b)
                    continue
                if x.k in ('ld', 'callv', 'extract', 'opaque') and False:
                    continue
                cand.append(x)
        if len(cand) == 1:
            return cand[0]
        ptrs = [c for c in cand if c.k in ('alloca', 'mem', 'g', 'vecdata')]
        if len(ptrs) == 1:
            return ptrs[0]
        ptrs = [c for c in cand if c.k in ('alloca', 'mem', 'g', 'vecdata', 'arg', 'callv')]
        if len(ptrs) == 1:
            return ptrs[0]
        return cand[0] if cand else None

    def op_load(self, i):
        p = self.X(i['ops'][0])
        return self.load_at(p, i['ty'], i)

    def load_at(self, p, ty, i):
        if p.k == 'part' and p.a[1] == 'ite':
            return mkpart([(self.load_at(v, ty, i), g) for v, g in p.a[0]])
        b = self.base(p)
        if b is not None and b.k == 'alloca':
            return self.alloca_load(p, b, ty, i)
        e = mk('ld', p, ty)
        # values stored earlier in the same iteration at the same address
        L = self.inner[i['b']]
        cur = e
        if b is not None:
            for s in self.region_stores(L):
                if self.key(s) >= self.key(i):
                    break
                q = self.X(s['ops'][1])
                for qq, gq in parts(q):
                    if qq is p:
                        if s.get('sty') != ty:
                            cur = mk('ldv', self.name, i['id'])
                            continue
                        g = B.And(self.pc(s['b'], L), gq)
                        cur = ite(B.constrain(g, self.pc(i['b'], L)) if B.And(g, self.pc(i['b'], L)) else 0, self.X(s['ops'][0]), cur)
        return cur

    def region_stores(self, L):
        if self._stores is None:
            self._stores = {}
            for b in self.order:
                for i in self.blk[b]['ins']:
                    if i['op'] == 'store':
                        i['sty'] = self.opty(i['ops'][0])
                        self._stores.setdefault(self.inner[b], []).append(i)
        return self._stores.get(L, [])

    def opty(self, o):
        if o[0] == 'i':
            return 'i%d' % o[1]
        if o[0] == 'f':
            return o[1]
        if o[0] == 'v':
            return self.ins[o[1]]['ty']
        if o[0] in ('g', 'null'):
            return 'ptr'
        return None

    def stores(self):
        self.region_stores(-1)
        return sorted((s for l in self._stores.values() for s in l), key=self.key)

    # allocas that stayed in memory: reaching definitions
    def alloca_defs(self):
        if self._allocas is not None:
            return self._allocas
        defs = {}
        direct = {}

        roots = {}
        for b in self.order:
            for i in self.blk[b]['ins']:
                if i['op'] == 'alloca':
                    roots[i['id']] = {i['id']}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                for i in self.blk[b]['ins']:
                    if i['ty'] != 'ptr' or i['op'] not in ('getelementptr', 'bitcast', 'phi', 'select'):
                        continue
                    src = [o for _, o in i['in']] if i['op'] == 'phi' else i['ops'][:1] if i['op'] != 'select' else i['ops'][1:]
                    new = set()
                    for o in src:
                        if o[0] == 'v':
                            new |= roots.get(o[1], set())
                    if new - roots.get(i['id'], set()):
                        roots.setdefault(i['id'], set()).update(new)
                        ch = True

        def root(o):
            r = roots.get(o[1], ()) if o[0] == 'v' else ()
            return next(iter(r)) if len(r) == 1 else None
        self.root = root
        for b in self.order:
            for i in self.blk[b]['ins']:
                if i['op'] == 'store':
                    r = root(i['ops'][1])
                    if r is not None:
                        defs.setdefault(r, []).append(i)
                    r2 = root(i['ops'][0])
                    if r2 is not None:
                        defs.setdefault(r2, []).append(i)
                elif i['op'] in ('call', 'invoke'):
                    if i.get('callee', '').startswith('llvm.lifetime') or i.get('callee', '').startswith('llvm.dbg'):
                        continue
                    if i.get('dem', '').find('derive_cp') >= 0:
                        continue
                    for k, o in enumerate(i['ops']):
                        r = root(o)
                        if r is not None and not (k == 1 and i.get('callee', '').startswith('llvm.memcpy')):
                            defs.setdefault(r, []).append(i)
        self._allocas = defs
        return defs

    def reach(self, aid, i):
        """definitions of alloca aid that reach instruction i: list of defs ('entry' for none)"""
        defs = self.alloca_defs().get(aid, [])
        byb = {}
        for d in defs:
            byb.setdefault(d['b'], []).append(d)
        return byb

    def alloca_load(self, p, b, ty, i):
        aid = b.a[1]
        off = psub(p, b)
        isvec = self.is_vector(aid)
        if isvec is not None:
            o = intval(off)
            if o == 0:
                return mk('vecdata', self.name, aid)
            if o == 8:
                return iadd(mk('vecdata', self.name, aid), mk('vecbytes', self.name, aid))
        byb = self.reach(aid, i)
        size = i.get('sz', 8)

        def relevant(d):
            if d['op'] == 'store':
                q = psub(self.X(d['ops'][1]), b)
                diff = intval(psub(q, off)) if q.k != 'part' else None
                if diff is None:
                    return 'may'
                if diff == 0:
                    return 'must'
                return None if (diff >= size or diff + d['sz'] <= 0) else 'may'
            if re.match(r'(\S+ )?(void )?std::vector<.*>::\w+', d.get('dem', '')) and intval(off) is not None:
                # a vector member function writes its own three pointers; its other arguments are read
                o = intval(psub(self.X(d['ops'][0]), b))
                if o is not None and (intval(off) >= o + 24 or intval(off) + size <= o):
                    return None
            return 'must'
        found, seen = [], set()

        def scan(bid, upto):
            for d in reversed([d for d in byb.get(bid, []) if upto is None or d['n'] < upto]):
                r = relevant(d)
                if r == 'must':
                    found.append(d)
                    return
                if r == 'may':
                    found.append(d)
            if bid == self.entry:
                found.append(None)
                return
            for q in self.blk[bid]['pred']:
                if q not in seen:
                    seen.add(q)
                    scan(q, None)
        scan(i['b'], i['n'])
        uniq = []
        for d in found:
            if d not in uniq:
                uniq.append(d)
        if len(uniq) == 1 and uniq[0] is not None:
            d = uniq[0]
            if d['op'] == 'store' and relevant(d) == 'must' and self.opty(d['ops'][0]) == ty:
                if self.dominates(d['b'], i['b']) and self.inner[d['b']] == self.inner[i['b']] or not self.depends_local(d, i):
                    return self.X(d['ops'][0])
                return mk('ldm', b, off, ty, (d['id'],))
            if d['op'] != 'store':
                return self.after_value(d, p, b, off, ty)
        g = self.gated_reach(p, b, off, ty, i, uniq, relevant)
        if g is not None:
            return g
        return mk('ldm', b, off, ty, tuple(sorted((d['id'] if d else -1) for d in uniq)))

    def after_value(self, d, p, b, off, ty):
        """what a variable handed to a call by reference holds afterwards"""
        dem = d.get('dem', '')
        if ty == 'ptr' and dem.startswith('convertIntArray2ByteArray_fast'):
            return iadd(self.load_at(p, ty, d), nbytes(self.X(d['ops'][1])))
        if ty == 'ptr' and dem.startswith('convertByteArray2IntArray_fast'):
            return iadd(self.load_at(p, ty, d), self.X(d['ops'][2]))
        return mk('after', self.name, d['id'], b, off, ty)

    def gated_reach(self, p, b, off, ty, i, uniq, relevant):
        """several definitions reach the load, all in the load's own region: choose between them by their path conditions"""
        L = self.inner[i['b']]
        if any(d is None or self.inner[d['b']] != L or relevant(d) != 'must' for d in uniq):
            return None
        P = self.pc(i['b'], L)
        cur = mk('undef')
        for d in sorted(uniq, key=self.key):
            if self.key(d) >= self.key(i):
                return None
            if d['op'] == 'store':
                if self.opty(d['ops'][0]) != ty:
                    return None
                v = self.X(d['ops'][0])
            else:
                v = self.after_value(d, p, b, off, ty)
            g = self.pc(d['b'], L)
            if L >= 0 and not B.implies(P, B.Or(*[self.pc(x['b'], L) for x in uniq])):
                return None
            cur = ite(B.constrain(g, P) if B.And(g, P) else 0, v, cur) if cur.k != 'undef' else v
        return cur

    def depends_local(self, d, i):
        """the stored value belongs to a loop the load is not in"""
        v = self.X(d['ops'][0])
        l = self.inner[d['b']]
        while l >= 0:
            if i['b'] not in self.loops[l].blocks and self.depends(v, l):
                return True
            l = self.loops[l].parent
        return False

    def is_vector(self, aid):
        """element type when the alloca holds a std::vector built by one of its constructors"""
        if not hasattr(self, '_vec'):
            self._vec = {}
            self.alloca_defs()
            for b in self.order:
                for i in self.blk[b]['ins']:
                    if i['op'] == 'call' and re.match(r'std::vector<.*>::vector\(|std::vector<.*>::push_back', i.get('dem', '')):
                        r = self.root(i['ops'][0])
                        if r is not None:
                            aty = self.ins[r].get('aty', '')
                            if 'vector' in aty and 'Quantizer' not in aty:
                                self._vec[r] = re.match(r'std::vector<([^,>]*)', i['dem']).group(1)
        return self._vec.get(aid)

    # ------------------------------------------------------------- calls
    def op_call(self, i):
        return self.call(i)

    op_invoke = op_call

    def call(self, i):
        n = i.get('callee')
        if n is None:
            return mk('callv', self.name, i['id'])
        if n.startswith('llvm.'):
            q = n.split('.')
            f = q[1]
            a = [self.X(o) for o in i['ops']]
            if f == 'fabs':
                x = a[0]
                if dist(x):
                    return mkpart([(fabs_(v), g) for v, g in x.a[0]])
                return fabs_(x)
            if f in ('smax', 'smin', 'umax', 'umin'):
                lt = icmp('slt', a[0], a[1])
                return ite(lt, a[1], a[0]) if f[1:] == 'max' else ite(lt, a[0], a[1])
            if f == 'abs':
                return ite(lt0(a[0]), imul(I(-1), a[0]), a[0])
            if f in ('maxnum', 'minnum', 'maximum', 'minimum'):
                return (mkmax if f.startswith('max') else mkmin)(a[0], a[1])
            if f in PURE:
                return mathcall(f, 'float' if q[-1] == 'f32' else 'double', *a)
            if f in ('copysign', 'usub', 'ctlz', 'cttz', 'ctpop', 'fshl', 'bswap', 'umul', 'is', 'powi', 'ldexp'):
                return mk('call', n, *a)
            return mk('callv', self.name, i['id'])
        if n in PURE or (n.endswith('f') and n[:-1] in PURE):
            return mathcall(n if n in PURE else n[:-1], 'double' if n in PURE else 'float', *[self.X(o) for o in i['ops']])
        if n in ALLOC:
            return mk('mem', self.name, i['id'])
        d = i.get('dem', '')
        if re.match(r'a(sqrt|cbrt)1\(', d):
            return mathcall(d.split('(')[0], 'float', *[self.X(o) for o in i['ops']])
        if re.search(r'derive_cp|max_eb_to_keep_position_and_type', d) and i['ty'] == 'double':
            args = []
            for o in i['ops']:
                x = self.X(o)
                bb = self.base(x) if o[0] == 'v' and self.ins[o[1]]['ty'] == 'ptr' else None
                if bb is not None and bb.k == 'alloca':
                    x = mk('tuple', self.alloca_content(bb, psub(x, bb), i))
                args.append(x)
            return mk('derive', n, *args)
        return mk('callv', self.name, i['id'])

    def alloca_content(self, b, off, i, n=4):
        """the scalars stored at b+off.. when each is set once by a dominating store"""
        T = None
        out = []
        defs = self.alloca_defs().get(b.a[1], [])
        sts = [d for d in defs if d['op'] == 'store']
        if not sts:
            return (mk('opaque', self.name, i['id']),)
        sz = sts[0]['sz']
        for k in range(n):
            m = [d for d in sts if intval(psub(psub(self.X(d['ops'][1]), b), off)) == k * sz]
            if len(m) == 1 and self.dominates(m[0]['b'], i['b']):
                out.append(self.X(m[0]['ops'][0]))
            else:
                out.append(mk('opaque', self.name, i['id'], k))
        return tuple(out)

    # ------------------------------------------------------------- queries
    def calls(self, regex):
        out = []
        for b in self.order:
            for i in self.blk[b]['ins']:
                if i['op'] in ('call', 'invoke') and re.search(regex, i.get('dem') or i.get('callee') or ''):
                    out.append(i)
        return out

    def where(self, i):
        d = i.get('dbg', '')
        return '%s:%s' % (self.short + ('<%s>' % self.T if self.T else ''), d or '?')


def wrap32(p):
    """32-bit arithmetic that does not overflow as signed: coefficients modulo 2^32, taken as signed"""
    m = pmap(p)
    if not any(c.denominator == 1 and abs(c) >= 2 ** 31 for c in m.values()):
        return p
    return frompmap({k: (Fraction((int(c) + 2 ** 31) % 2 ** 32 - 2 ** 31) if c.denominator == 1 else c) for k, c in m.items()})


def nbytes(n):
    """bytes of a bit map of n >= 1 entries"""
    return iadd(I(1), div('udiv', iadd(n, I(-1)), I(8)))


def tobool(v):
    """low bit of an integer as a condition"""
    if v.k == 'part' and v.a[1] == 'ite':
        return B.Or(*[B.And(g, tobool(x)) for x, g in v.a[0]])
    n = intval(v)
    if n is not None:
        return int(n) & 1
    if v.k == 'b2i':
        return v.a[0]
    if v.k == 'undef':
        return 0
    return B.atom(mk('bit', v))


def div(op, a, b):
    """integer division; exact when every coefficient divides"""
    y = intval(b)
    if y is not None and y != 0:
        if y == 1:
            return a
        m = pmap(a)
        if all((c / y).denominator == 1 for c in m.values()):
            return pscale(a, 1 / y)
        if all(len(k) == 1 and k[0].k == 'vecbytes' or k == () for k in m):
            return pscale(a, 1 / y)
    if a is b:
        return I(1)
    if ROUND8[0] and y == 8 and a.k == 'poly' and pmap(a).get(()) == 7:
        return iadd(I(1), mk('udiv', padd(a, I(-8)), b))
    return mk('udiv', a, b)
