"""Writer/reader pairs: the byte stream a compressor writes, as an ordered tape, and the decompressor's expressions read back through it."""
import re
import itertools
from expr import *
from fn import Stop, ALLOC, Fn, nbytes, div

SZ = {'i8': 1, 'i8u': 1, 'i1': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'float': 4, 'double': 8, 'ptr': 8}


# members of std::vector that add or remove elements otherwise than one at the end
BULK = r'.*>::(insert|_M_\w*insert\w*|emplace|resize|assign|swap|operator=|pop_back|erase)\b'


class Bad(Exception):
    """a definite disagreement: the message names the construct"""

    def __init__(self, where, msg):
        Exception.__init__(self, '%s: %s' % (where, msg))
        self.where, self.msg = where, msg


class Item:
    """one field of the tape. kind: 'var' (scalar), 'arr' (raw bytes), 'huff' (entropy coded ints), 'bits' (bit map), 'skip'"""

    def __init__(self, kind, seg, off, size, guard, ins, **kw):
        self.kind, self.seg, self.off, self.size, self.guard, self.ins = kind, seg, off, size, guard, ins
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s@%s+%s size %s if %s' % (self.kind, self.seg, show(self.off), show(self.size), B.show(self.guard, 2))


def theory(conds, extra=()):
    """what the atoms of the given conditions imply about each other (integer order on one polynomial, float order against constants)"""
    groups, fl = {}, {}
    for a in conds:
        if a.k in ('lt0', 'eq0'):
            m = dict(pmap(a.a[0]))
            c = m.pop((), Fraction(0))
            if not m:
                continue
            key = tuple(sorted(m.items(), key=lambda t: tuple(x.id for x in t[0])))
            lead = key[0][1]
            # over q = poly / lead (positive lead is the normal form):   q < -c/lead   or   q == -c/lead
            key = tuple((k, v / lead) for k, v in key)
            groups.setdefault(key, []).append((a.k, -c / lead, a))
        elif a.k == 'flt':
            x, y = a.a
            if y.k == 'f':
                fl.setdefault(x, []).append(('lt', y.a[0], a))
            elif x.k == 'f':
                fl.setdefault(y, []).append(('gt', x.a[0], a))
        elif a.k == 'feq0':
            fl.setdefault(a.a[0], []).append(('eq', 0.0, a))
    P = 1

    def imp(a, na, b, nb):
        nonlocal P
        x, y = B.atom(a), B.atom(b)
        x = B.Not(x) if na else x
        y = B.Not(y) if nb else y
        P = B.And(P, B.Or(B.Not(x), y))
    for g in groups.values():
        for (k1, c1, a), (k2, c2, b) in itertools.permutations(g, 2):
            if k1 == 'lt0' and k2 == 'lt0' and c1 <= c2:
                imp(a, 0, b, 0)
            if k1 == 'eq0' and k2 == 'eq0' and c1 != c2:
                imp(a, 0, b, 1)
            if k1 == 'eq0' and k2 == 'lt0':
                imp(a, 0, b, 0 if c1 < c2 else 1)
    for g in fl.values():
        for (k1, c1, a), (k2, c2, b) in itertools.permutations(g, 2):
            if k1 == k2 == 'lt' and c1 <= c2:
                imp(a, 0, b, 0)
            if k1 == k2 == 'gt' and c1 >= c2:
                imp(a, 0, b, 0)
            if k1 == 'lt' and k2 == 'gt' and c1 <= c2:
                imp(a, 0, b, 1)
            if k1 == 'gt' and k2 == 'lt' and c1 >= c2:
                imp(a, 0, b, 1)
            if k1 == 'eq' and k2 in ('lt', 'gt'):
                t = c1 < c2 if k2 == 'lt' else c1 > c2
                imp(a, 0, b, 0 if t else 1)
    return P


def all_atoms(*es):
    """every condition atom inside the given terms / conditions"""
    out, st, seen = set(), [], set()
    for e in es:
        if isinstance(e, int):
            s = B.support(e)
            out |= s
            st += s
        else:
            st.append(e)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += sub(x)
        for g in [g for _, g in x.a[0]] if x.k == 'part' else [x.a[0]] if x.k == 'b2i' else ():
            s = B.support(g)
            out |= s
            st += s
    return sorted(out, key=lambda a: a.id)


def theory_of(*es):
    return theory(all_atoms(*es))


class Tape:
    """the stream written by a compressor"""

    def __init__(self, F):
        self.F = F
        self.items = []
        self.build()

    CODE = r'Huffman_encode_tree_and_data\(|convertIntArray2ByteArray_fast'

    def build(self):
        F = self.F
        rets = [i for b in F.order for i in F.blk[b]['ins'] if i['op'] == 'ret' and i['ops']]
        if len(rets) != 1:
            raise Stop('%s: no single return' % F.short)
        self.ret = F.X(rets[0]['ops'][0])
        if self.ret.k != 'mem':
            raise Stop('%s: does not return a buffer it allocates: %s' % (F.short, show(self.ret)))
        self.out = self.ret
        self.segs = {self.out: self.out}       # segment base -> root buffer of its space
        self.calls = []
        coders = {}
        for i in F.calls(self.CODE):
            if F.inner[i['b']] >= 0:
                raise Stop('%s: entropy coding inside a loop' % F.where(i))
            coders[i['id']] = i
        for b in F.order:
            for i in F.blk[b]['ins']:
                if i['id'] in coders:
                    p = self.cursor(i, i['ops'][self.cur(i)])
                    if not self.on_tape(p):
                        r = F.base(p)
                        if r is None or r.k != 'mem':
                            raise Bad(F.where(i), 'entropy coder is handed a cursor outside every buffer of this function: ' + show(p))
                        self.segs[r] = r
                    if i['dem'].startswith('Huffman'):
                        self.segs[self.after(i, i['ops'][self.cur(i)])] = self.root(p)
        for b in F.order:
            for i in F.blk[b]['ins']:
                L = F.inner[i['b']]
                if i['op'] == 'store':
                    self.item_store(i, L)
                elif i['op'] == 'call':
                    c = i.get('callee', '')
                    d = i.get('dem', '')
                    if c.startswith('llvm.memcpy') or c == 'memcpy':
                        p = F.X(i['ops'][0])
                        if self.on_tape(p):
                            self.place('arr', p, F.X(i['ops'][2]), i, src=F.X(i['ops'][1]))
                    elif c.startswith('llvm.memset'):
                        p = F.X(i['ops'][0])
                        if self.on_tape(p):
                            self.place('set', p, F.X(i['ops'][2]), i, src=F.X(i['ops'][1]))
                    elif i['id'] in coders:
                        p = self.cursor(i, i['ops'][self.cur(i)])
                        if d.startswith('Huffman'):
                            it = self.place('huff', p, mk('hsize', F.name, i['id']), i, alpha=F.X(i['ops'][0]), src=F.X(i['ops'][1]), n=F.X(i['ops'][2]))
                        else:
                            it = self.place('bits', p, nbytes(F.X(i['ops'][1])), i, src=F.X(i['ops'][0]), n=F.X(i['ops'][1]))
                        self.calls.append(it)

    @staticmethod
    def cur(i):
        return 3 if i['dem'].startswith('Huffman') else 2

    def root(self, p):
        """the buffer whose space the address is in"""
        rs = {self.segs[self.seg_of(v)[0]] for v, _ in parts(p)}
        return rs.pop() if len(rs) == 1 else None

    def cursor(self, i, o):
        """value of the cursor variable handed by reference to call i"""
        F = self.F
        p = F.X(o)
        return F.load_at(p, 'ptr', i)

    def after(self, i, o):
        F = self.F
        p = F.X(o)
        b = F.base(p)
        return mk('after', F.name, i['id'], b, psub(p, b), 'ptr')

    def seg_of(self, p):
        """(segment base, offset) of an address on the tape; a gated address gives the latest segment's alternatives"""
        for m, c in pmap(p).items():
            if len(m) == 1 and c == 1 and m[0] in self.segs:
                return m[0], psub(p, m[0])
        return None

    def on_tape(self, p):
        if p.k == 'part':
            return all(self.on_tape(v) for v, _ in p.a[0])
        return self.seg_of(p) is not None

    def item_store(self, i, L):
        F = self.F
        p = F.X(i['ops'][1])
        if not self.on_tape(p):
            return
        if L >= 0:
            raise Stop('%s: stream written element by element in a loop' % F.where(i))
        F.region_stores(-1)
        self.place('var', p, I(i['sz']), i, val=F.X(i['ops'][0]), ty=i['sty'])

    def place(self, kind, p, size, i, **kw):
        F = self.F
        g = F.pc(i['b'], -1) if F.inner[i['b']] < 0 else None
        if g is None:
            raise Stop('%s: stream written inside a loop' % F.where(i))
        it = Item(kind, None, p, size, g, i, addr=p, space=self.root(p), **kw)
        self.items.append(it)
        return it

    def layout(self):
        """human-readable description of the tape"""
        F = self.F
        out = []
        for it in self.items:
            d = {'var': lambda: '%s %s' % (it.ty, show(it.val)), 'arr': lambda: '%s bytes of %s' % (show(it.size), show(it.src)),
                 'set': lambda: 'fill', 'huff': lambda: 'huffman(%s, %s)' % (show(it.alpha), show(it.n)), 'bits': lambda: 'bitmap(%s)' % show(it.n)}[it.kind]()
            out.append(d + ('' if it.guard == 1 else ' if ' + B.show(it.guard, 2)))
        return out

    def end(self, it):
        """cursor after the item"""
        if it.kind == 'huff':
            return self.after(it.ins, it.ins['ops'][self.cur(it.ins)])
        return iadd(it.addr, it.size)

    def lift(self, p):
        """an address in a side buffer, as the place in the output buffer it is copied to"""
        if p.k == 'part':
            return mkpart([(self.lift(v), g) for v, g in p.a[0]], p.a[1])
        if not self.on_tape(p) or self.root(p) is self.out:
            return p
        for it in self.items:
            if it.kind == 'arr' and it.space is self.out and it.src.k != 'part' and self.on_tape(it.src) and self.root(it.src) is self.root(p):
                return iadd(it.addr, psub(p, it.src)) if not self.whole(p, it) else iadd(it.addr, it.size)
        return p

    def whole(self, p, it):
        return psub(p, it.src) is it.size

    def contiguous(self):
        """fields follow one another without gap or overlap, side buffers are copied whole, and the reported size is where the last field ends"""
        F = self.F
        out = []
        ends = {}
        for root in sorted(set(self.segs.values())):
            pos = root
            for it in self.items:
                if it.space is not root:
                    continue
                P = B.And(it.guard, theory_of(it.addr, pos, it.guard))
                ok = same(it.addr, pos, P)
                out.append((F.where(it.ins), ok, '' if ok else 'field %s is written at %s but the previous one ends at %s' % (it.kind, show(it.addr), show(pos))))
                pos = ite(it.guard, self.end(it), pos)
            ends[root] = pos
        for root in ends:
            if root is self.out:
                continue
            cp = [it for it in self.items if it.kind == 'arr' and it.src is root and it.space is self.out]
            if len(cp) != 1:
                raise Stop('%s: side buffer %s is not copied to the stream once' % (F.short, show(root)))
            want = psub2(ends[root], root)
            ok = same(cp[0].size, want, cp[0].guard)
            out.append((F.where(cp[0].ins), ok, '' if ok else '%s bytes of a side buffer that holds %s are copied' % (show(cp[0].size), show(want))))
        pos = ends[self.out]
        size = None
        for i in F.stores():
            p = F.X(i['ops'][1])
            if p.k == 'arg' and F.j['args'][p.a[1]]['ty'] == 'ptr' and i['sz'] == 8 and self.mentions(F.X(i['ops'][0])):
                size = (i, F.X(i['ops'][0]))
        if size is None:
            for i in F.stores():
                p = F.X(i['ops'][1])
                if p.k == 'arg' and F.j['args'][p.a[1]]['ty'] == 'ptr' and i['sty'] == 'i64':
                    size = (i, F.X(i['ops'][0]))
        if size is None:
            raise Stop('%s: no store of the compressed size found' % F.short)
        want = psub2(pos, self.out)
        ok = same(size[1], want, theory_of(size[1], want)) if size[1].k != 'undef' else False
        out.append((F.where(size[0]), ok, '' if ok else 'reported size %s, stream ends at %s' % (show(size[1]), show(want))))
        return out

    def mentions(self, e):
        return any(x in self.segs for x in walk(e))


def narrow(v, wide, ty):
    """the low bytes of a little-endian integer field whose value fits them"""
    if wide not in ('i16', 'i32', 'i64') or ty not in ('i8', 'i8u', 'i16', 'i32') or SZ[ty] >= SZ[wide]:
        return False
    return all(intval(x) is not None and 0 <= intval(x) < 128 or x.k == 'b2i' for x, _ in parts(v))


def psub2(a, b):
    return iadd(a, imul(I(-1), b))


def fold(stores, target, default):
    """value at address target after the guarded stores [(addr, val, guard)], in order"""
    cur = default
    for a, v, g in stores:
        for aa, ga in parts(a):
            if aa is target:
                cur = ite(B.And(g, ga), v, cur)
    return cur


class Pair:
    """one compressor and the decompressor that reads its stream"""

    def __init__(self, mod, wname, rname):
        self.mod = mod
        self.W, self.R = mod.fn(wname), mod.fn(rname)
        self.tape = Tape(self.W)
        self.obl = []

    def check(self, where, ok, msg=''):
        self.obl.append((where, bool(ok), msg))
        return ok

    # ------------------------------------------------------------ reader side
    def theory(self, *es):
        return theory_of(*es)

    def setup(self):
        W, R = self.W, self.R
        self.env = {}
        comp = [a for a in R.args if R.j['args'][a.a[1]]['ty'] == 'ptr'][0]
        self.env[comp] = self.tape.out
        for ty in ('i64', 'i32'):
            wi = [a for a in W.args if W.j['args'][a.a[1]]['ty'] == ty]
            ri = [a for a in R.args if R.j['args'][a.a[1]]['ty'] == ty]
            for a, b in zip(ri, wi):
                self.env[a] = b
        self.memo = {}
        self.dec = {}            # reader call id -> tape item
        self.field = {}
        self.loopmap = {}
        self.mumap = {}
        self.streams = {}
        self.hook = None

    def reset(self):
        self.memo = {}

    def tr(self, e):
        """a reader term over the writer's terms"""
        return subst(e, self.env, self.memo, self.trfn)

    def trfn(self, e):
        R = self.R
        if e.k == 'ld':
            return self.read(e)
        if e.k == 'after' and e.a[0] == R.name and e.a[1] in self.dec:
            return self.tape.lift(self.tape.end(self.dec[e.a[1]]))
        if e.k == 'iv' and e.a[0] == R.name and e.a[1] in self.loopmap:
            return self.W.loops[self.loopmap[e.a[1]]].iv
        if self.hook:
            return self.hook(e)
        return None

    def read(self, e):
        """a load whose address is already over the writer's terms"""
        p, ty = e.a
        if p.k == 'part':
            return mkpart([(self.read1(v, ty, g) or mk('ld', v, ty), g) for v, g in p.a[0]], p.a[1])
        return self.read1(p, ty)

    def read1(self, p, ty, g=1):
        if self.tape.on_tape(p):
            for it in self.tape.items:
                if it.kind == 'var' and (it.addr is p or it.addr.k == 'part' and B.And(it.guard, g) and same(it.addr, p, B.And(it.guard, g))):
                    if it.ty == ty or {it.ty, ty} <= {'i8', 'i8u'}:
                        self.field[it] = self.field.get(it, 0) + 1
                        return it.val
                    if narrow(it.val, it.ty, ty):
                        return it.val
                    return mk('misread', it.val, it.ty, ty)
                if it.kind == 'arr':
                    d = psub(p, it.addr) if it.addr.k != 'part' else None
                    if d is not None and self.within(d, it.size):
                        self.field[it] = self.field.get(it, 0) + 1
                        return mk('ld', iadd(it.src, d), ty)
            return None
        if self.hook:
            return self.hook(mk('ld', p, ty))
        return None

    def within(self, d, size):
        return nonneg_facts(d) and nonneg_facts(padd(size, pscale(d, -1), I(-1)))

    def match_calls(self):
        """the reader's entropy-decoding calls against the writer's, in order: same position, alphabet and count"""
        R, T = self.R, self.tape
        todo = list(T.calls)
        for i in R.calls(r'^Huffman_decode_tree_and_data\(|^convertByteArray2IntArray_fast'):
            huff = i['dem'].startswith('Huffman')
            o = i['ops'][2] if huff else i['ops'][1]
            p = R.load_at(R.X(o), 'ptr', i)
            q = self.tr(p)
            g = self.tr(R.pc(i['b'], -1)) if R.inner[i['b']] < 0 else None
            if g is None:
                raise Stop('%s: entropy decoding inside a loop' % R.where(i))
            hit = None
            for it in todo:
                P = B.And(g, theory_of(q, it.addr, g))
                if P and same(q, self.tape.lift(it.addr), P) and (it.kind == 'huff') == huff:
                    hit = it
                    break
            if hit is None and g == 0:
                continue
            if hit is None:
                nxt = todo[0] if todo else None
                self.check(R.where(i), False, '%s reads at %s; the next such field is written at %s (%s)' % (
                    i['dem'].split('(')[0], show(q), show(self.tape.lift(nxt.addr)) if nxt else 'nowhere', self.W.where(nxt.ins) if nxt else ''))
                raise Bad(R.where(i), self.obl[-1][2])
            todo.remove(hit)
            P = theory_of(g, hit.guard)
            self.check(R.where(i), B.And(P, B.ite(g, B.Not(hit.guard), hit.guard)) == 0, 'field is written when %s but read when %s' % (B.show(hit.guard, 3), B.show(g, 3)))
            if huff:
                a, n = self.tr(R.X(i['ops'][0])), self.tr(R.X(i['ops'][1]))
                self.check(R.where(i), same(a, hit.alpha, g), 'alphabet size: written with %s, read with %s' % (show(hit.alpha), show(a)))
            else:
                a, n = I(0), self.tr(R.X(i['ops'][0]))
                bl = self.tr(R.X(i['ops'][2]))
                self.check(R.where(i), same(bl, nbytes(n), g), 'bit map of %s entries read as %s bytes' % (show(n), show(bl)))
            self.check(R.where(i), same(n, hit.n, g), 'count: written %s, read %s' % (show(hit.n), show(n)))
            self.dec[i['id']] = hit
            self.reset()
        for it in todo:
            self.check(self.W.where(it.ins), False, 'entropy-coded field is written but never read')
        return self.dec

    def match_fields(self):
        """every scalar the reader takes from the stream outside its loops is a scalar the writer put at that place, with that type;
        every address of the stream it hands on or starts a cursor at is the start of a field"""
        R, T = self.R, self.tape
        for b in R.order:
            if R.inner[b] >= 0:
                if R.blk[b]['ins'] and any(l.header == b for l in (R.loops.values() if isinstance(R.loops, dict) else R.loops)):
                    L = R.inner[b]
                    for i in R.blk[b]['ins']:
                        if i['op'] != 'phi' or i['ty'] != 'ptr':
                            continue
                        x = R.X(['v', i['id']])
                        if x.k != 'mu':
                            continue
                        init = R.phi_parts(x)[0]
                        if isinstance(init, int):
                            continue
                        q = self.tr(init)
                        if q.k != 'mu' and T.on_tape(q):
                            g = self.tr(R.pc(b, -1)) if R.loops[L].parent < 0 else 1
                            ok = self.starts(q, g)
                            self.check(R.where(i), ok, 'reads an array from %s, where no field of the stream starts' % show(q))
                continue
            for i in R.blk[b]['ins']:
                if i['op'] == 'load':
                    q = self.tr(R.X(i['ops'][0]))
                    if not T.on_tape(q) or R.j.get('skip'):
                        continue
                    g = self.tr(R.pc(b, -1))
                    if g == 0:
                        continue
                    ok, msg = self.field_at(q, i['ty'], g)
                    self.check(R.where(i), ok, msg)
                elif i['op'] == 'call' and not i.get('callee', '').startswith(('llvm.', 'free', 'printf')) and not re.match(r'Huffman_decode|convertByte', i.get('dem', '')):
                    for o in i['ops']:
                        if R.opty(o) != 'ptr':
                            continue
                        q = self.tr(R.X(o))
                        if T.on_tape(q):
                            g = self.tr(R.pc(b, -1))
                            ok = g == 0 or self.starts(q, g)
                            self.check(R.where(i), ok, 'hands on %s, where no field of the stream starts' % show(q))

    def starts(self, q, g):
        T = self.tape
        for it in T.items:
            P = B.And(g, theory_of(q, it.addr, g))
            if same(q, T.lift(it.addr), P) or same(q, it.addr, P):
                return True
        # an absent optional array: the cursor is the place of the next field
        P = B.And(g, theory_of(q, g))
        return all(self.starts1(v, B.And(P, h)) for v, h in parts(q) if B.And(P, h))

    def starts1(self, v, g):
        T = self.tape
        for it in T.items:
            for a in (it.addr, T.lift(it.addr), self.tape.end(it)):
                for x, h in parts(a):
                    if x is v:
                        return True
                if same(v, a, B.And(g, theory_of(v, a, g))):
                    return True
        return False

    def field_at(self, q, ty, g):
        T = self.tape
        r = self.read1(q, ty) if q.k != 'part' else None
        if r is not None and r.k != 'misread':
            return True, ''
        if r is not None:
            return False, 'reads a %s where the writer puts a %s (%s)' % (ty, r.a[1], show(r.a[0]))
        for it in T.items:
            P = B.And(g, theory_of(q, it.addr, g, it.guard))
            if P and same(q, T.lift(it.addr), P):
                if it.kind == 'var':
                    ok = it.ty == ty or {it.ty, ty} <= {'i8', 'i8u'} or narrow(it.val, it.ty, ty)
                    return ok, '' if ok else 'reads a %s where the writer puts a %s (%s)' % (ty, it.ty, show(it.val))
                if it.kind in ('arr', 'set'):
                    return True, ''
        return False, 'reads a %s at %s, where the stream has no such field' % (ty, show(q))

    # ------------------------------------------------------------ streams
    def out_buffers(self):
        """the reader's output buffers by argument position (or ['ret'])"""
        R = self.R
        out = {}
        for i in R.stores():
            p = R.X(i['ops'][1])
            if p.k == 'arg' and p.a[0] == R.name and R.inner[i['b']] < 0:
                v = R.X(i['ops'][0])
                if v.k == 'mem':
                    out[p.a[1]] = v
        if not out:
            for b in R.order:
                for i in R.blk[b]['ins']:
                    if i['op'] == 'ret' and i['ops']:
                        v = R.X(i['ops'][0])
                        if v.k == 'mem':
                            out['ret'] = v
        return [out[k] for k in sorted(out, key=str)]

    def chain(self, F, L):
        c = []
        while L >= 0:
            c.append(L)
            L = F.loops[L].parent
        return c[::-1]

    def nest_of(self, F, bases):
        """innermost loops in which F stores to objects in bases, in program order"""
        out = []
        for s in F.stores():
            b = F.base(F.X(s['ops'][1]))
            if b in bases:
                L = F.inner[s['b']]
                if L not in out:
                    out.append(L)
        return out

    def map_loops(self, Lr, Lw):
        R, W = self.R, self.W
        cr, cw = self.chain(R, Lr), self.chain(W, Lw)
        if len(cr) != len(cw):
            return False
        for a, b in zip(cr, cw):
            t, u = self.tr(R.trip(a)), W.trip(b)
            if t.k == 'trip' or not same(t, u):
                return False
            self.loopmap[a] = b
            self.reset()
        return True

    def roles(self):
        """writer buffers that stand for each data argument: filled from it before the coding loops"""
        W = self.W
        dat = [a for a in W.args if W.j['args'][a.a[1]]['ty'] == 'ptr']
        role = {}
        for i in W.calls(r'memcpy'):
            d, s = W.base(W.X(i['ops'][0])), W.base(W.X(i['ops'][1]))
            if d is not None and d.k == 'mem' and s in dat:
                role.setdefault(s, []).append(d)
        for st in W.stores():
            d = W.base(W.X(st['ops'][1]))
            if d is None or d.k != 'mem' or st['sty'] not in ('float', 'double'):
                continue
            v = W.X(st['ops'][0])
            src = {W.base(x.a[0]) for x in walk(v) if x.k == 'ld'} & set(dat)
            if len(src) == 1:
                s = src.pop()
                if d not in role.get(s, []):
                    role.setdefault(s, []).append(d)
        return [role[a] for a in dat if a in role]

    def wstores(self, base, Lw):
        W = self.W
        out = []
        for s in W.stores():
            a = W.X(s['ops'][1])
            if W.base(a) is base:
                L = W.inner[s['b']]
                if L == Lw:
                    out.append((a, W.X(s['ops'][0]), W.pc(s['b'], L), s))
        return out

    def pushes(self, V, Lw):
        """[(value, guard, instruction)] appended to vector V in one iteration of loop Lw; None when V is also filled elsewhere"""
        W = self.W
        out = []
        for i in W.calls(r'std::vector<.*>::push_back|std::vector<.*>::emplace_back'):
            b = W.base(W.X(i['ops'][0]))
            if b is None or b.k != 'alloca' or mk('vecdata', W.name, b.a[1]) is not V:
                continue
            if W.inner[i['b']] != Lw:
                return None
            ty = W.is_vector(b.a[1])
            out.append((W.load_at(W.X(i['ops'][1]), ty, i), W.pc(i['b'], Lw), i))
        if any(b is None or b == V.a[1] for b, i in self.bulk()):
            return None
        return out

    def bulk(self):
        """[(list or None, instruction)] places where a list of the writer may grow or shrink otherwise than by one element at its end:
        its other members, its ends moved in line, its address handed on inside a loop or kept somewhere, an element appended to an unknown list"""
        W = self.W

        def held(e):
            return e is not None and e.k == 'alloca' and 'vector' in W.ins[e.a[1]].get('aty', '')
        out = []
        for b in W.order:
            for i in W.blk[b]['ins']:
                if i['op'] == 'store':
                    d = W.base(W.X(i['ops'][1]))
                    if W.inner[b] >= 0 and held(d):
                        out.append((d.a[1], i))
                    v = W.X(i['ops'][0]) if i.get('sty') == 'ptr' else None
                    if v is not None and held(v):
                        out.append((v.a[1], i))
                elif i['op'] in ('call', 'invoke') and i['ops']:
                    dem = i.get('dem', '')
                    if re.search(r'^[^(]*?std::vector<' + BULK, dem):
                        d = W.base(W.X(i['ops'][0]))
                        out.append((d.a[1] if held(d) else None, i)) if held(d) else None
                    elif re.search(r'std::vector<(float|double), .*>::(push|emplace)_back', dem):
                        d = W.base(W.X(i['ops'][0]))
                        if not held(d):
                            out.append((None, i))
                    elif W.inner[b] >= 0 and not re.match(r'llvm\.', i.get('callee') or '') and not re.search(r'^[^(]*?std::vector<', dem):
                        for o in i['ops']:
                            if W.opty(o) == 'ptr' and held(W.X(o)):
                                out.append((W.X(o).a[1], i))
        return out

    def vec(self, V, Lw):
        """(items by rank, number appended, element size) for one iteration"""
        key = ('vec', V, Lw)
        if key in self.streams:
            return self.streams[key]
        W = self.W
        ps = self.pushes(V, Lw)
        if ps is None:
            raise Stop('%s: the escape list is filled outside the coding loop' % W.short)
        size = SZ[W.is_vector(V.a[1])]
        counts = {0: 1}
        items = {}
        for v, g, i in ps:
            new = {}
            for n, c in counts.items():
                h = B.And(c, g)
                if h:
                    items.setdefault(n, []).append((v, h))
                    new[n + 1] = B.Or(new.get(n + 1, 0), h)
                h = B.And(c, B.Not(g))
                if h:
                    new[n] = B.Or(new.get(n, 0), h)
            counts = new
        r = ({n: mkpart(x) for n, x in items.items()}, mkpart([(I(n), c) for n, c in counts.items()]), size)
        self.streams[key] = r
        return r

    def w_parts(self, w):
        """(initial, next) of a writer cursor"""
        W = self.W
        if w.k == 'mu':
            return W.phi_parts(w)
        V, L = w.a
        p = W.loops[L].parent
        init = V if p < 0 else mk('vcur', V, p)
        if L == self.Lw:
            return init, iadd(w, imul(I(self.vec(V, L)[2]), self.vec(V, L)[1]))
        kid = self.chain(W, self.Lw)[self.chain(W, self.Lw).index(L) + 1]
        return init, mk('exitval', W.name, kid, self.w_parts(mk('vcur', V, kid))[1])

    def src_addr(self, p):
        """an address over the writer's terms, moved from the tape to the array the field was copied from"""
        if p.k == 'part':
            return mkpart([(self.src_addr(v), g) for v, g in p.a[0]])
        if self.tape.on_tape(p):
            for it in self.tape.items:
                if it.kind == 'arr' and same(it.addr, p, it.guard):
                    return it.src
        return p

    def stream_hook(self, e):
        W, R = self.W, self.R
        if e.k == 'ld':
            p, ty = e.a
            return self.stream_read(p, ty)
        if e.k == 'callv' and e.a[0] == R.name and e.a[1] in self.dec:
            return self.dec[e.a[1]].src
        if e.k == 'exitval' and e.a[0] == R.name and e.a[1] in self.loopmap:
            return mk('exitval', W.name, self.loopmap[e.a[1]], e.a[2])
        if e.k == 'mu' and e.a[0] == R.name:
            w = self.mumap.get(e)
            if w is None:
                w = self.match_mu(e)
            return w
        return None

    def stream_read(self, p, ty):
        W = self.W
        if p.k == 'part':
            return None
        at = [m[0] for m, c in pmap(p).items() if len(m) == 1 and c == 1]
        for x in at:
            if x.k == 'vcur':
                items, n, size = self.vec(x.a[0], self.Lw)
                off = intval(psub(p, x))
                if x.a[1] != self.Lw or off is None or off % size:
                    return mk('nosym', p)
                v = items.get(int(off) // size)
                return v if v is not None else mk('nosym', p)
        b = W.base(p)
        if b in self.syms:
            st = self.wstores(b, self.Lw)
            if not st:
                return mk('nosym', p)
            tys = {s[3]['sty'] for s in st}
            if tys != {ty}:
                return mk('nosym', p)
            r = fold([s[:3] for s in st], p, mk('nosym', p))
            return r
        return None

    def mu_cands(self, mu):
        """writer cursors that start where the reader's loop variable mu starts"""
        R, W = self.R, self.W
        if mu.a[1] not in self.loopmap:
            return []
        Lw = self.loopmap[mu.a[1]]
        init = R.phi_parts(mu)[0]
        if isinstance(init, int):
            return []
        s = self.src_addr(self.tr(init))
        cands = []
        if s.k == 'vecdata':
            cands.append(mk('vcur', s, Lw))
        if s.k == 'vcur':
            cands.append(mk('vcur', s.a[0], Lw))
        for i in W.blk[W.loops[Lw].header]['ins']:
            if i['op'] == 'phi':
                x = W.X(['v', i['id']]) if i['ty'] != 'i1' else None
                if x is not None and x.k == 'mu' and not isinstance(W.phi_parts(x)[0], int) and same(W.phi_parts(x)[0], s):
                    cands.append(x)
        return cands

    def guess(self, mu):
        """inside a search: the next guess for mu (checked with the others at the end)"""
        h = self.hyp
        if mu in h['map']:
            return h['map'][mu]
        h['map'][mu] = None          # while its start is translated
        c = self.mu_cands(mu) + [None]
        n = h['n']
        h['n'] += 1
        if n == len(h['pick']):
            h['pick'].append([0, len(c)])
        w = c[min(h['pick'][n][0], len(c) - 1)]
        h['map'][mu] = w
        h['todo'].append(mu)
        return w

    def match_mu(self, mu):
        """the writer cursor that moves in step with the reader's loop variable mu; cursors that depend on one another (through the
        loop nest, or through the codes that decide how far they move) are guessed together and then each is checked under the guesses"""
        if self.hyp is not None:
            return self.guess(mu)
        if mu in self.mudead:
            return None
        R = self.R
        saved = dict(self.mumap)
        pick = []
        for _ in range(64):
            self.hyp = {'map': dict(saved), 'pick': pick, 'n': 0, 'todo': []}
            self.reset()
            ok = True
            try:
                if self.guess(mu) is None:
                    ok = False
                while ok and self.hyp['todo']:
                    m = self.hyp['todo'].pop(0)
                    w = self.hyp['map'][m]
                    if w is None:
                        continue
                    n, wn = self.tr(R.phi_parts(m)[1]), self.w_parts(w)[1]
                    if not same(n, wn, self.theory(n, wn)):
                        self.mufail[m] = (w, n, wn)
                        ok = False
                got, used = self.hyp['map'], self.hyp['n']
            finally:
                self.hyp = None
                self.reset()
            if ok:
                self.mumap = {k: v for k, v in got.items() if v is not None}
                self.reset()
                return self.mumap[mu]
            del pick[used:]
            while pick and pick[-1][0] + 1 >= pick[-1][1]:
                pick.pop()
            if not pick or len(pick) == 1 and pick[0][0] + 2 >= pick[0][1]:
                break
            pick[-1][0] += 1
        self.mudead.add(mu)
        return None

    # ------------------------------------------------------------ lockstep
    def lockstep(self):
        """what the reader stores into each output cell equals what the writer keeps in its working copy of that cell"""
        R, W = self.R, self.W
        self.hook = self.stream_hook
        self.mufail, self.mudead, self.hyp = {}, set(), None
        self.syms = {it.src for it in self.tape.items if it.kind in ('huff', 'bits')} | {it.src for it in self.tape.items if it.kind == 'arr'}
        self.reset()
        outs = self.out_buffers()
        roles = self.roles()
        if not outs or len(outs) > len(roles):
            raise Stop('%s: output buffers not recognised' % R.short)
        cand = [r for r in roles[:len(outs)]]
        rn = self.nest_of(R, set(outs))
        if not rn:
            raise Stop('%s: no loop stores to the output' % R.short)
        Lr = rn[0]
        err = None
        for combo in itertools.product(*cand):
            ws = set(combo)
            for Lw in self.nest_of(W, self.syms):
                if Lw < 0:
                    continue
                self.loopmap, self.mumap, self.mudead = {}, {}, set()
                self.reset()
                if not self.map_loops(Lr, Lw):
                    continue
                self.Lw, self.Lr = Lw, Lr
                for o, w in zip(outs, combo):
                    self.env[o] = w
                self.reset()
                for l in self.chain(R, Lr):
                    for i in R.blk[R.loops[l].header]['ins']:
                        if i['op'] == 'phi' and i['ty'] != 'i1':
                            x = R.X(['v', i['id']])
                            if x.k == 'mu' and x not in self.mumap:
                                w = self.match_mu(x)
                self.reset()
                yield self.compare(outs, combo)

    def initial(self, b, off, ty):
        """what the cell of the local buffer b at offset off holds before the coding loops: a copy of an input, or a function of it"""
        W = self.W
        key = ('initial', b, off)
        if key in self.streams:
            return self.streams[key]
        r = None
        top = self.chain(W, self.Lw)[0]
        for i in W.calls(r'memcpy'):
            d = W.X(i['ops'][0])
            if W.base(d) is b and W.inner[i['b']] < 0 and psub(d, b) is I(0):
                r = mk('ld', iadd(W.X(i['ops'][1]), off), ty)
        loops = {}
        for s in W.stores():
            a = W.X(s['ops'][1])
            L = W.inner[s['b']]
            if W.base(a) is b and self.chain(W, L)[:1] != [top]:
                loops.setdefault(L, []).append((a, W.X(s['ops'][0]), W.pc(s['b'], L), s))
        for L, st in loops.items():
            if L < 0 or W.loops[L].parent >= 0 or r is not None:
                return None
            iv = W.loops[L].iv
            t = {x for a, v, g, s in st for x, _ in parts(a)}
            if len(t) != 1:
                return None
            t = t.pop()
            d = psub(t, b)
            if d.k != 'poly' or len(d.a[0]) != 1 or d.a[0][0][0] != (iv,):
                return None
            n = pscale(off, 1 / d.a[0][0][1])
            v = fold([x[:3] for x in st], t, mk('unset', t))
            r = subst(v, {iv: n})
        self.streams[key] = r
        return r

    def unwritten(self, e, offs):
        """e with the loads of cells this iteration has not written yet replaced by what the buffers were filled with"""
        W = self.W

        def hook(x):
            if x.k == 'ld' and x.a[0].k != 'part':
                b = W.base(x.a[0])
                if b is not None and b.k == 'mem' and b in self.rolebufs:
                    off = psub(x.a[0], b)
                    if off in offs:
                        return self.initial(b, off, x.a[1])
            return None
        return subst(e, {}, {}, hook)

    def compare(self, outs, combo):
        R, W = self.R, self.W
        res = []
        self.rolebufs = {b for r in self.roles() for b in r}
        for o, w in zip(outs, combo):
            st = [(R.X(s['ops'][1]), R.X(s['ops'][0]), R.pc(s['b'], self.Lr), s) for s in R.stores() if R.base(R.X(s['ops'][1])) is o and R.inner[s['b']] == self.Lr]
            targets = []
            for a, v, g, s in st:
                for x, _ in parts(a):
                    if x not in targets:
                        targets.append(x)
            for t in targets:
                tw = self.tr(t)
                rv = fold([x[:3] for x in st], t, mk('unset', t))
                rw = self.tr(rv)
                wv = fold([x[:3] for x in self.wstores(w, self.Lw)], tw, mk('ld', tw, st[0][3]['sty']))
                P = theory_of(rw, wv)
                ok = same(rw, wv, P)
                if not ok:
                    offs = {psub(x, w) for x, _ in parts(tw)}
                    rw, wv = self.unwritten(rw, offs), self.unwritten(wv, offs)
                    P = theory_of(rw, wv)
                    ok = same(rw, wv, P)
                res.append((R.where(st[0][3]), ok, rw, wv, P))
        return res
