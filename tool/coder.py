"""C11: the entropy coder, its tree, the bit maps and the lossless wrapper give back what they were given."""
import re
import model
from fn import Module, Stop
from bits import Machine, Lin, K, atom, lin, bits, const, ladd, lmul, name, neg, TOP, low_const


def ld(v):
    """address, size of the unknown memory a value was read from, or None"""
    v = lin(v)
    if v is not None and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and v.t[0][0][0] == 'ld':
        a = v.t[0][0]
        return a[1], a[2]
    return None


def field(v, base):
    """offset o when v was read from base + o"""
    r = ld(v)
    if r is None:
        return None
    d = ladd(r[0], base, -1)
    return d.c if not d.t else None


def strip(a):
    """(pointer field address, rest) of an address whose base pointer is itself read from memory"""
    for t, k in a.t:
        if k == 1 and t[0] == 'ld' and t[2] == 8:
            return t[1], ladd(a, atom(t), -1)
    return None, a


def epochless(v):
    """v with the reading epochs of its atoms dropped"""
    if isinstance(v, Lin):
        return Lin([(epochless(a), k) for a, k in v.t], v.c)
    if isinstance(v, tuple):
        if v and v[0] == 'ld' and len(v) == 4:
            return ('ld', epochless(v[1]), v[2], 0)
        return tuple(epochless(x) for x in v)
    return v


class Coder:
    def __init__(self, c, mod):
        self.c, self.mod = c, mod
        self.fj = {}
        for f in mod.j['functions']:
            n = re.sub(r'<.*', '', f['dem'].split('(')[0]).split(' ')[-1].lstrip('*&')
            self.fj.setdefault(n, f)

    def F(self, n):
        if n not in self.fj:
            raise Stop('%s not found' % n)
        return self.fj[n]

    def A(self, f):
        return [atom(('arg', i)) for i, a in enumerate(f['args'])]

    def where(self, f, i=None):
        if i is not None and i.get('dbg'):
            return '%s:%s' % (f['dem'].split('(')[0], i['dbg'])
        return '%s:%d %s' % (f.get('file', '?').split('/')[-1], f.get('line', 0), f['dem'].split('(')[0])

    def ob(self, rule, f, ok, msg, i=None):
        return self.c.ob(rule, '%s/%s' % (f['dem'].split('(')[0], rule), self.where(f, i), ok, msg)

    def part(self, what, fn):
        """run one group of obligations; what it cannot recognise is undecided"""
        try:
            fn()
        except (Stop, RecursionError, KeyError, TypeError, AttributeError, IndexError, ValueError, OverflowError) as e:
            self.c.skip(what, '%s %s' % (type(e).__name__, e))

    # ------------------------------------------------------------ code words
    def build_code(self):
        """leaves get the path as a left-aligned word, bit by bit from the root; children get the path with one more bit"""
        f = self.F('build_code')
        A = self.A(f)
        if [a['ty'] for a in f['args']] != ['ptr', 'ptr', 'i32', 'i64', 'i64']:
            raise Stop('build_code: parameters not recognised')
        huff, n = A[0], A[1]
        self.kid = None
        for L in range(0, 65):
            d = tuple((('path', L - 1 - j), 0) if j < L else 0 for j in range(64)) if L else K(0)
            ps = Machine(f, [huff, n, K(L), d, K(0)]).paths()
            leaf = [p for p in ps if not [e for e in p.ev('call')]]
            inner = [p for p in ps if p not in leaf]
            if len(leaf) != 1 or len(inner) != 1:
                raise Stop('build_code: cases not recognised')
            leaf, inner = leaf[0], inner[0]
            ds = list(leaf.dec.items())
            if len(ds) != 1 or ds[0][0][1] != 'eq' or const(ds[0][0][3]) != 0:
                raise Stop('build_code: leaf test not recognised')
            ft = field(ds[0][0][2], n)
            if ft is None:
                raise Stop('build_code: leaf test not recognised')
            self.ob('leaf-flag', f, ds[0][1] == 0, 'a node whose flag is 0 is taken for a leaf')
            self.ft = ft
            # leaf
            al = leaf.ev('alloc')
            st = leaf.ev('store')
            if len(al) != 1:
                raise Stop('build_code: word not recognised')
            W = al[0][1]
            w0 = [e for e in st if e[1] == W and e[2] == 8]
            code = [e for e in st if e[3] == W]
            cnt = [e for e in st if e[2] == 1]
            if len(w0) < 1 or len(code) != 1 or len(cnt) != 1:
                raise Stop('build_code: stores of the code word not recognised')
            pf, rest = strip(code[0][1])
            fo = ladd(pf, huff, -1) if pf else None
            if fo is None or fo.t or len(rest.t) != 1 or rest.t[0][1] != 8:
                raise Stop('build_code: code table not recognised')
            fc = field(lin(atom(rest.t[0][0])), n)
            if fc is None:
                self.ob('code-symbol', f, False, 'the code word is filed under %r, not under the symbol of the leaf' % rest, code[0][4])
                raise Stop('build_code: symbol not recognised')
            self.code_off, self.fc = fo.c, fc
            pf, rest2 = strip(cnt[0][1])
            co = ladd(pf, huff, -1) if pf else None
            if co is None or co.t:
                raise Stop('build_code: length table not recognised')
            self.cout_off = co.c
            self.ob('code-symbol', f, field(rest2, n) == fc, 'length of the code of symbol [n+%d] is filed under %r' % (fc, rest2), cnt[0][4])
            self.ob('code-length', f, const(cnt[0][3]) == L, 'a leaf at depth %d gets the length %r' % (L, cnt[0][3]), cnt[0][4])
            want = (0,) * (64 - L) + tuple((('path', L - 1 - j), 0) for j in range(L))
            got = bits(w0[-1][3], 64) if w0[-1][3] is not None else (TOP,) * 64
            if L:
                self.ob('code-word', f, got == want, 'a leaf at depth %d does not get its path, left-aligned: %s' % (L, self.word(got)), w0[-1][4])
            # inner node
            if L == 64:
                continue                # deeper trees need more than 2^44 codes
            calls = [e for e in inner.ev('call') if e[1] == f['name']]
            if len(calls) != len(inner.ev('call')) or len(calls) != 2:
                self.ob('code-children', f, False, 'at depth %d not exactly the two children are visited' % L)
                continue
            kid = {}
            for e in calls:
                a = e[3]
                o = field(epochless(a[1]) if a[1] is not None else None, n)
                if o is None:
                    raise Stop('build_code: child not recognised')
                w = bits(a[3], 64) if a[3] is not None else (TOP,) * 64
                bit = w[0]
                self.ob('code-path', f, bit in (0, 1) and w[1:] == bits(d, 64)[:63] and const(a[2]) == L + 1 and a[0] == huff,
                        'the child at [n+%d] of a node at depth %d is visited with depth %r and path %s' % (o, L, a[2], self.word(w)), e[5])
                kid[bit] = o
            ok = set(kid) == {0, 1} and kid[0] != kid[1]
            self.ob('code-prefix', f, ok, 'the two children of a node at depth %d do not get different paths: %s' % (L, kid))
            if ok:
                if self.kid not in (None, kid):
                    self.ob('code-prefix', f, False, 'children swap sides at depth %d' % L)
                self.kid = kid
        self.c.unit('build_code', depths=65, fields='left [%s] right [%s] flag [%d] symbol [%d]' % (self.kid.get(0), self.kid.get(1), self.ft, self.fc))

    @staticmethod
    def word(w):
        return ''.join(str(b) if b in (0, 1, TOP) else 'p' for b in reversed(w))[:64]

    # ------------------------------------------------------------ encode
    def encode(self):
        """every code word is appended to the bit stream, for each number of bits left in the current byte and each length"""
        f = self.F('encode')
        A = self.A(f)
        tys = [a['ty'] for a in f['args']]
        if tys != ['ptr', 'ptr', 'i64', 'ptr', 'ptr']:
            raise Stop('encode: parameters not recognised')
        huff, s, length, out, osz = A
        top = [l for l in f['loops'] if l['parent'] < 0]
        if len(top) != 1:
            raise Stop('encode: no single loop over the codes')
        h = top[0]['header']
        inner = {l['header'] for l in f['loops'] if l['parent'] >= 0}
        phis = [i for b in f['blocks'] if b['id'] == h for i in b['ins'] if i['op'] == 'phi']

        def run(l, n, role, old):
            st = {}

            def header(b, ph, p):
                r = {}
                for k, (i, v) in ph.items():
                    if k == role:
                        r[k] = K(l)
                    else:
                        r[k] = atom(('phi', k))
                st['init'] = {k: v for k, (i, v) in ph.items()}
                return r

            def load(a, size, M):
                pf, rest = strip(a)
                if pf is not None:
                    o = ladd(pf, huff, -1)
                    if not o.t and o.c == self.cout_off and size == 1:
                        st.setdefault('sym', []).append(rest)
                        return K(n)
                    q = ladd(pf, K(0))
                    # [[huff + code_off] + 8*sym] + 0
                    t = strip(q)
                    if t[0] is not None:
                        o = ladd(t[0], huff, -1)
                        if not o.t and o.c == self.code_off and size == 8:
                            st.setdefault('word', []).append((t[1], rest))
                            if const(rest) == 0:
                                return tuple((('code', 63 - k), 0) if 63 - k < n else 0 for k in range(64))
                            return K(0)
                # the byte the stream is in
                if 'p' in st and size == 1 and a == st['p'] and (a.t, a.c) not in M.mem:
                    return old(l)
                return None

            m = Machine(f, A, load=load, header=header, unroll=inner)
            st['p'] = atom(('phi', self.pphi))
            return m.paths(), st

        def old(l):
            return tuple(0 if k < l else (('old', 7 - k), 0) for k in range(8)) if l else (TOP,) * 8

        # which loop variable is the cursor, which the number of bits left
        m = Machine(f, A, header=lambda b, ph, p: ini.update({k: v for k, (i, v) in ph.items()}), unroll=inner)
        ini = {}
        m.hload = lambda a, size, M: None
        try:
            m.paths(64)
        except Stop:
            pass
        ptr = [i['id'] for i in phis if i['ty'] == 'ptr' and ini.get(i['id']) == out]
        num = [i['id'] for i in phis if i['ty'] in ('i32', 'i64', 'i8', 'i16') and const(ini.get(i['id'])) == 0]
        if len(ptr) != 1 or not num:
            raise Stop('encode: cursor or bit count not recognised')
        self.pphi = ptr[0]
        best = None
        for role in num:
            bad, n_ok, why = self.encode_role(f, run, old, role, h, s, osz, phis, length)
            if best is None or len(bad) < len(best[0]):
                best = (bad, n_ok, role)
            if not bad:
                break
        bad, n_ok, role = best
        if n_ok == 0:
            raise Stop('encode: coding state not recognised: ' + (bad[0][0] if bad else ''))
        for msg, i in bad[:6]:
            self.ob('append', f, False, msg, i)
        for k in range(n_ok):
            self.ob('append', f, True, '')
        self.c.unit('encode', cases=n_ok + len(bad))

    def encode_role(self, f, run, old, role, h, s, osz, phis, length):
        bad, good = [], 0
        done_order = False
        self.sizes = []
        for l in range(8):
            for n in range(0 if l == 0 else 1, 65):
                ps, st = run(l, n, role, old)
                back = [p for p in ps if any(e[0] == 'arrive' and e[1] == h for e in p.events)]
                if not back:
                    raise Stop('encode: loop not reached')
                for p in back:
                    r = self.encode_case(p, l, n, role, h, osz, phis)
                    if r:
                        bad.append(r)
                    else:
                        good += 1
                if not done_order:
                    done_order = True
                    for r in self.encode_order(f, ps, st, h, s, length, phis):
                        if r is None:
                            good += 1
                        else:
                            bad.append(r)
                    syms = st.get('sym', [])
                    words = st.get('word', [])
                    if syms and words and not all(epochless(w[0]) == lmul(epochless(syms[0]), 8) for w in words):
                        bad.append(('the code word and its length are taken from different symbols: %r, %r' % (words[0][0], syms[0]), None))
                if len(bad) > 40:
                    return bad, good, ''
        if not all(x[0] for x in self.sizes) and not set.intersection(*(x[1] for x in self.sizes)):
            bad += [x[2] for x in self.sizes if not x[0] and (not x[1] or x[2][1])]
        return bad, good, ''

    def encode_order(self, f, ps, st, h, s, length, phis):
        """the codes are taken in order, each once"""
        syms = st.get('sym', [])
        if not syms:
            return [('no code is looked up', None)]
        a = ld(syms[0])
        if a is None or a[1] != 4:
            return [('the symbol is not one of the given codes: %r' % syms[0], None)]
        a = a[0]
        back = [p for p in ps if p.end[0] == 'back']
        arr = [e for p in ps for e in p.ev('arrive') if e[1] == h]
        if not back or not arr:
            return [('no second round', None)]
        now = {('phi', k): v for k, v in back[0].end[2].items()}
        ini = {('phi', k): v for k, v in arr[0][2].items()}

        def sub(x, m):
            r = K(x.c)
            for t, k in x.t:
                v = lin(m.get(t, atom(t)))
                if v is None:
                    return None
                r = ladd(r, lmul(v, k))
            return r
        first, nxt = sub(a, ini), sub(a, now)
        out = [None if first == s else ('the first code is taken from %r' % first, None),
               None if nxt is not None and ladd(nxt, a, -1) == K(4) else ('after the code at %r comes the one at %r' % (a, nxt), None)]
        # number of rounds: the last round is the one after which the next code would be element `length`
        for p in ps:
            if p.end[0] in ('back', 'ret') and any(e[0] == 'arrive' for e in p.events):
                out.append(self.counts(p, h, a, s, length, 4))
        for p in ps:
            if p.end[0] == 'ret' and not any(e[0] == 'arrive' for e in p.events):
                d = [k for k in p.dec]
                ok = len(d) == 1 and ((d[0][1] == 'eq' and {lin(d[0][2]), lin(d[0][3])} == {length, K(0)} and p.dec[d[0]] == 1) or (d[0][1] == 'lt' and d[0][2] == K(0) and d[0][3] == length and p.dec[d[0]] == 0))
                out.append(None if ok else ('no code is written under %s' % ' & '.join(map(name, d)), None))
        return out

    def counts(self, p, h, a, s, length, size):
        """the decision that ends or repeats the round compares the number of elements done with the count"""
        end = p.end[0]
        # as index: some induction variable X with a = s + size*X
        idx = ladd(a, s, -1)
        nxt = ladd(idx, K(size))
        tot = lmul(length, size)
        for d, val in p.dec.items():
            if d[0] != 'c':
                continue
            k, pred, x, y = d
            x, y = epochless(lin(x)), epochless(lin(y))
            if x is None or y is None:
                continue
            for m in (1, size, 0):
                # as numbers, in bytes, and as addresses
                u, w = (lmul(x, m), lmul(y, m)) if m else (ladd(x, s, -1), ladd(y, s, -1))
                if m == 1 and size != 1:
                    continue
                ok = None
                if pred == 'eq' and {u, w} == {nxt, tot}:
                    ok = val == (1 if end == 'ret' else 0)
                elif pred == 'lt' and (u, w) == (nxt, tot):
                    ok = val == (0 if end == 'ret' else 1)
                elif pred == 'eq' and {u, w} == {idx, tot} and end == 'ret':
                    ok = val == 1
                elif pred == 'lt' and (u, w) == (idx, tot):
                    ok = True if end == 'back' and val == 1 else (end == 'ret' and val == 0)
                elif pred == 'lt' and (u, w) == (tot, nxt):
                    ok = False
                if ok is not None:
                    return None if ok else ('the loop ends before or after the last of the codes (%s = %d)' % (name(d), val), None)
        ds = [name(d) for d in p.dec]
        return ('what ends the loop over the codes does not compare with their number: ' + '; '.join(ds)[:200], None)

    def encode_case(self, p, l, n, role, h, osz, phis):
        used = (8 - l) % 8
        T = used + n
        cur = atom(('phi', self.pphi))
        case = 'with %d bits left in the current byte, a code of %d bits: ' % (l, n)
        st = [e for e in p.events if e[0] == 'store']
        # contents after the round
        mem = {}
        size = K(0)
        for e in st:
            a, k, v, i = e[1], e[2], e[3], e[4]
            d = ladd(a, cur, -1)
            if not d.t:
                x = bits(v, 8 * k) if v is not None else (TOP,) * (8 * k)
                for j in range(k):
                    mem[d.c + j] = (x[8 * j:8 * j + 8], i)
                    if d.c + j < 0 or d.c + j > T // 8 + 8:
                        return (case + 'writes at byte %+d' % (d.c + j), i)
            elif a == osz:
                v0 = lin(v)
                size = ladd(v0, K(0)) if v0 is not None else None
                szi = i
            else:
                return (case + 'writes outside the stream: %r' % a, i)
        for q in range(used, T):
            b = mem.get(q // 8)
            want = (('code', q - used), 0)
            got = b[0][7 - q % 8] if b else None
            if got != want:
                return (case + 'bit %d of the code is not put at bit %d of byte %d' % (q - used, q % 8, q // 8), b[1] if b else None)
        for q in range(used):
            b = mem.get(0)
            if b and b[0][7 - q] != (('old', q), 0):
                return (case + 'bit %d of the byte before is lost' % q, b[1])
        for q in range(T, (T + 7) // 8 * 8):
            b = mem.get(q // 8)
            if (b is None and not (q // 8 == 0 and l)) or (b and b[0][7 - q % 8] != 0):
                return (case + 'the rest of the last byte is not left 0', b[1] if b else None)
        # state after the round
        back = p.end[2] if p.end[0] == 'back' else None
        if back is not None:
            c = lin(back.get(self.pphi))
            if c is None or ladd(c, cur, -1) != K(T // 8):
                return (case + 'the cursor moves to %r instead of byte %d' % (c, T // 8), None)
            if const(back.get(role)) != (8 - T % 8) % 8:
                return (case + '%r bits are taken to be left instead of %d' % (back.get(role), (8 - T % 8) % 8), None)
        grow = (T + 7) // 8 - (used + 7) // 8
        base = [t for t, k in size.t if t[0] == 'ld' and t[1] == osz] if size is not None else []
        stored = any(e[1] == osz for e in st)
        kept = size is not None and size.c == grow and len(base) == 1 and len(size.t) == 1 if stored else grow == 0
        # or in a loop variable, which takes the place of the count in memory at the end
        ini = [e[2] for e in p.ev('arrive')][0]
        var = set()
        for i in phis:
            k = i['id']
            if k in (role, self.pphi) or i['ty'] != 'i64':
                continue
            z = lin(ini.get(k))
            g = ld(z) if z is not None else None
            zero, full = const(z) == 0, g is not None and g[0] == osz
            if not (zero or full):
                continue
            if back is not None:
                ok = not stored and lin(back.get(k)) == ladd(atom(('phi', k)), K(grow))
            else:
                ok = stored and size is not None and [t for t, q in size.t if t not in base] == [('phi', k)] and all(q == 1 for t, q in size.t) and \
                    size.c == grow and (zero or not base)
            if ok:
                var.add(k)
        msg = case + ('the size grows by %r instead of %d' % (size, grow) if stored else 'the size does not grow')
        self.sizes.append((kept, var, (msg, szi if stored else None)))
        return None

    # ------------------------------------------------------------ decode
    def wide(self, f, a):
        """loop variables in an address count with 64 bits"""
        ty = {i['id']: i['ty'] for b in f['blocks'] for i in b['ins'] if i['op'] == 'phi'}

        def ids(t):
            if isinstance(t, tuple):
                if len(t) == 2 and t[0] == 'phi':
                    return {t[1]}
                return set().union(set(), *map(ids, t))
            if isinstance(t, Lin):
                return set().union(set(), *(ids(x) for x, k in t.t))
            return set()
        return all(ty.get(i) in ('i64', 'ptr', None) for i in ids(a))

    def decode(self):
        """every bit of the stream is taken once, in order, a symbol is put out at every leaf, and the walk starts again at the root"""
        f = self.F('decode')
        A = self.A(f)
        if [a['ty'] for a in f['args']] != ['ptr', 'i64', 'ptr', 'ptr']:
            raise Stop('decode: parameters not recognised')
        s, length, root, out = A
        heads = {}
        probes = [l['header'] for l in f['loops'] if l['parent'] < 0]
        for b in f['blocks']:
            if b['id'] in probes:
                heads[b['id']] = [i for i in b['ins'] if i['op'] == 'phi']
        walk = [h for h, ph in heads.items() if any(i['ty'] == 'ptr' for i in ph)]
        # the loop over the bits: the one that carries a node
        nodes = [(h, i['id']) for h in walk for i in heads[h] if i['ty'] == 'ptr' and any(o == ['v', self.argid(f, 2)] for q, o in i['in'])]
        if len(nodes) != 1:
            raise Stop('decode: loop over the bits not recognised')
        h, nphi = nodes[0]
        ints = [i for i in heads[h] if i['ty'] in ('i64', 'i32')]
        best = None
        for role in ints:
            try:
                r = self.decode_role(f, A, h, nphi, role, heads[h])
            except Stop as e:
                why = str(e)
                continue
            if best is None or len([x for x in r if x]) < len([x for x in best if x]):
                best = r
            if not any(r):
                break
        if best is None:
            raise Stop('decode: position in the stream not recognised: ' + (why if ints else ''))
        for m in best:
            self.ob('read-bits', f, not m, m[0] if m else '', m[1] if m else None)
        # the only code
        ps = self.decode_paths(f, A, h, nphi, self.drole, 0)
        n = 0
        for p in ps:
            if any(e[0] == 'arrive' and e[1] == h for e in p.events):
                continue
            st = p.ev('store')
            d = [(k, v) for k, v in p.dec.items() if k[1] == 'eq' and field(k[2], root) == self.ft and const(k[3]) == 0]
            if st:
                n += 1
                ok = len(d) == 1 and d[0][1] == 0
                ar = p.ev('arrive')
                self.ob('one-code', f, ok, 'a symbol is put out without a walk though the root need not be a leaf')
                a = st[0][1]
                ok = len(st) == 1 and st[0][2] == 4 and field(epochless(lin(st[0][3])), root) == self.fc
                self.ob('one-code', f, ok, 'the symbol of a root that is a leaf is not what is put out: %r' % (lin(st[0][3]),), st[0][4])
                if len(ar) != 1:
                    raise Stop('decode: loop over a single code not recognised')
                m = self.counts(p, ar[0][1], a, out, length, 4)
                self.ob('one-code', f, m is None, m[0] if m else '')
                v = self.rounds(p, ar[0], a)
                self.ob('one-code', f, v in (None, (out, K(4))), 'the symbols are not put out one after the other from the start: %s' % (v,))
                self.ob('one-code', f, self.wide(f, a), 'the number of symbols is counted in less than 64 bits')
            elif p.end[0] == 'ret':
                ok = any(k[0] == 'c' and {lin(k[2]), lin(k[3])} == {length, K(0)} and v == (k[1] == 'eq') for k, v in p.dec.items())
                self.ob('one-code', f, ok, 'nothing is put out under %s' % ' & '.join(map(name, p.dec)))
        if not n:
            self.ob('one-code', f, False, 'a root that is a leaf puts out nothing')
        self.c.unit('decode', cases=len(best))

    def argid(self, f, k):
        return f['args'][k]['id']

    def rounds(self, p, arrive, a):
        """(first address, step) of an address that depends on loop variables, when this path goes round"""
        if p.end[0] != 'back':
            return None

        def sub(x, m):
            r = K(x.c)
            for t, k in x.t:
                v = lin(m.get(t, atom(t)))
                if v is None:
                    return None
                r = ladd(r, lmul(v, k))
            return r
        first = sub(a, {('phi', k): v for k, v in arrive[2].items()})
        nxt = sub(a, {('phi', k): v for k, v in p.end[2].items()})
        return first, (ladd(nxt, a, -1) if nxt is not None else None)

    def decode_paths(self, f, A, h, nphi, role, r):
        def header(b, ph, p):
            if b != h:
                return None
            res = {k: atom(('phi', k)) for k in ph}
            res[role] = Lin([(('phi', role), 8)], r)
            return res
        return Machine(f, A, header=header).paths()

    def decode_role(self, f, A, h, nphi, role, phis):
        s, length, root, out = A
        res = []
        rid = role['id']
        for r in range(8):
            ps = self.decode_paths(f, A, h, nphi, rid, r)
            ps = [p for p in ps if any(e[0] == 'arrive' and e[1] == h for e in p.events)]
            if not ps:
                raise Stop('loop over the bits not reached')
            got = set()
            for p in ps:
                case = 'bit %d of a byte: ' % r
                ar = [e for e in p.events if e[0] == 'arrive' and e[1] == h][0]
                if lin(ar[2][nphi]) != root or const(ar[2][rid]) != 0:
                    raise Stop('initial state')
                ds = list(p.dec.items())
                bd = [(k, v) for k, v in ds if isinstance(k[0], tuple) and k[0][0] == 'ld' and k[0][2] == 1]
                cut = ar[3]
                bd = [(k, v) for k, v in bd if ds.index((k, v)) >= cut]
                if len(bd) != 1:
                    raise Stop('test of the bit')
                (src, bit), b = bd[0]
                want = ladd(s, atom(('phi', rid)))
                if src[1] != want or bit != 7 - r:
                    if not any(t == ('phi', rid) for t, k in src[1].t):
                        raise Stop('position of the byte')
                    res.append((case + 'bit %d of the byte at %r is taken' % (7 - bit, src[1]), None))
                    continue
                N = atom(('phi', nphi))
                child = ladd(N, K(self.kid[b]))
                lt = [(k, v) for k, v in ds if k[0] == 'c' and k[1] == 'eq' and const(k[3]) == 0 and ds.index((k, v)) >= cut and ld(k[2]) and ld(k[2])[1] == 1]
                if len(lt) != 1:
                    raise Stop('test of the leaf')
                t = ld(lt[0][0][2])[0]
                g = ld(ladd(t, K(-self.ft)))
                if g is None or epochless(g[0]) != child:
                    res.append((case + 'bit value %d leads to the node at %r instead of the child at [n+%d]' % (b, g[0] if g else t, self.kid[b]), None))
                    continue
                leaf = lt[0][1] == 0
                got.add((b, leaf))
                node = ladd(t, K(-self.ft))
                pos = p.events.index(ar)
                st = [e for e in p.events[pos:] if e[0] == 'store']
                if len(st) != (1 if leaf else 0):
                    res.append((case + '%d symbols are put out at %s' % (len(st), 'a leaf' if leaf else 'an inner node'), st[0][4] if st else None))
                    continue
                nx = p.end[2] if p.end[0] == 'back' else None
                if leaf:
                    e = st[0]
                    if e[2] != 4 or field(lin(e[3]), node) != self.fc:
                        res.append((case + 'what is put out at a leaf is not its symbol: %r' % (lin(e[3]),), e[4]))
                    a = e[1]
                    cphi = [t_ for t_, k in a.t if t_[0] == 'phi']
                    m = self.counts(p, h, a, out, length, 4)
                    if m:
                        res.append((case + m[0], e[4]))
                    v = self.rounds(p, ar, a)
                    if v not in (None, (out, K(4))):
                        res.append((case + 'symbols are put out from %r in steps of %r' % v, e[4]))
                    if not self.wide(f, a) or role['ty'] != 'i64':
                        res.append((case + 'bits or symbols are counted in less than 64 bits', e[4]))
                    self.dcount = cphi
                elif p.end[0] == 'ret':
                    ok = [1 for k, v in ds if k[0] == 'c' and k[1] == 'lt' and k[3] == length and v == 0 or k[0] == 'c' and k[1] == 'eq' and length in (k[2], k[3]) and v == 1]
                    if not ok:
                        res.append((case + 'the walk ends at an inner node', None))
                if nx is not None:
                    want = root if leaf else node
                    if lin(nx[nphi]) != want:
                        res.append((case + 'after %s the walk goes on at %r' % ('a leaf' if leaf else 'an inner node', lin(nx[nphi])), None))
                    d = lin(nx[rid])
                    if d is None or ladd(d, Lin([(('phi', rid), 8)], r), -1) != K(1):
                        res.append((case + 'the next bit is number %r' % d, None))
                    if not leaf:
                        for c in getattr(self, 'dcount', []):
                            if lin(nx[c[1]]) != atom(c):
                                res.append((case + 'an inner node counts as a symbol', None))
                res.append(None)
            if {(0, True), (0, False), (1, True), (1, False)} - got and not any(x for x in res):
                raise Stop('cases')
        self.drole = rid
        return res

    # ------------------------------------------------------------ nodes
    def nodes(self):
        """a new node is the next unused one of the pool and gets what it is given"""
        f = self.F('new_node')
        A = self.A(f)
        if [a['ty'] for a in f['args']] != ['ptr', 'i64', 'i32', 'ptr', 'ptr']:
            raise Stop('new_node: parameters not recognised')
        huff, fr, cc, x, y = A
        self.pool = self.nn = self.ffreq = self.nsize = None
        for p in Machine(f, A).paths():
            ds = list(p.dec.items())
            if len(ds) != 1 or ds[0][0][0] != 'c' or ds[0][0][1] != 'eq' or {lin(ds[0][0][2]), lin(ds[0][0][3])} != {fr, K(0)}:
                raise Stop('new_node: cases not recognised')
            leaf = ds[0][1] == 0
            node, st = self.new(f, p, huff)
            fields = {}
            for e in st:
                d = ladd(e[1], node, -1)
                if d.t:
                    raise Stop('new_node: store not recognised')
                fields[d.c] = e
            if leaf:
                fq = [o for o, e in fields.items() if lin(e[3]) == fr]
                self.ob('leaf-node', f, self.fc in fields and lin(fields[self.fc][3]) == cc and fields[self.fc][2] == 4, 'a leaf does not get the symbol it is made for')
                self.ob('leaf-node', f, self.ft in fields and const(fields[self.ft][3]) not in (None, 0), 'a leaf is not marked as one')
                self.ob('leaf-node', f, not any(k in fields for k in self.kid.values()), 'a leaf gets children')
                self.ob('leaf-node', f, len(fq) == 1, 'a leaf does not get the frequency it is made for')
                self.ffreq = fq[0] if fq else None
            else:
                ks = {lin(fields[k][3]) if k in fields else None for k in self.kid.values()}
                self.ob('inner-node', f, ks == {x, y}, 'the two children of an inner node are %s' % ', '.join(map(str, ks)))
                e = fields.get(self.ft)
                self.ob('inner-node', f, e is not None and const(e[3]) == 0, 'an inner node is marked as a leaf')
                if self.ffreq is not None:
                    e = fields.get(self.ffreq)
                    v = epochless(lin(e[3])) if e is not None and e[3] is not None else None
                    w = [epochless(lin(tuple((('ld', ladd(q, K(self.ffreq)), 8, 0), j) for j in range(64)))) for q in (x, y)]
                    self.ob('inner-node', f, v == ladd(w[0], w[1]), 'the frequency of an inner node is not the sum of those of its children')
        f = self.F('new_node2')
        A = self.A(f)
        if [a['ty'] for a in f['args']] != ['ptr', 'i32', 'i8']:
            raise Stop('new_node2: parameters not recognised')
        for p in Machine(f, A).paths():
            if p.dec:
                raise Stop('new_node2: cases not recognised')
            node, st = self.new(f, p, A[0])
            fields = {}
            for e in st:
                d = ladd(e[1], node, -1)
                if d.t:
                    raise Stop('new_node2: store not recognised')
                fields[d.c] = e
            self.ob('read-node', f, self.fc in fields and lin(fields[self.fc][3]) == A[1], 'a node does not get the symbol read for it')
            self.ob('read-node', f, self.ft in fields and lin(fields[self.ft][3]) == A[2], 'a node does not get the flag read for it')
            self.ob('read-node', f, not any(k in fields for k in self.kid.values()), 'a node read gets children before they are read')
        self.c.unit('nodes', functions=2)

    def new(self, f, p, huff):
        """(the node, the stores into it) on a path that takes one from the pool"""
        if p.end[0] != 'ret':
            raise Stop('new_node: path not recognised')
        node = lin(p.end[1])
        pf, rest = strip(node)
        if pf is None:
            raise Stop('new_node: pool not recognised')
        pool = ladd(pf, huff, -1)
        if len(rest.t) != 1 or rest.t[0][0][0] != 'ld' or pool.t:
            self.ob('pool', f, False, 'the node is not the next one of the pool: %r' % node)
            raise Stop('new_node: node not recognised')
        nn = ladd(rest.t[0][0][1], huff, -1)
        size = rest.t[0][1]
        if nn.t:
            raise Stop('new_node: counter not recognised')
        key = (pool.c, nn.c, size)
        if self.pool is not None and (self.pool, self.nn, self.nsize) != key:
            raise Stop('new_node: pools differ')
        self.pool, self.nn, self.nsize = key
        adv = [e for e in p.ev('store') if e[1] == ladd(huff, K(nn.c))]
        ok = rest.c == 0 and len(adv) == 1 and lin(adv[0][3]) == ladd(atom(rest.t[0][0]), K(1))
        self.ob('pool', f, ok, 'the pool does not move on by one node', adv[0][4] if adv else None)
        top = max(self.kid[0], self.kid[1], self.fc - 4, self.ft - 7) + 8
        self.ob('pool', f, size >= top, 'nodes of %d bytes lie %d bytes apart' % (top, size))
        return node, [e for e in p.ev('store') if e not in adv]

    def create(self):
        """a new tree has no nodes and no codes"""
        f = self.F('createHuffmanTree')
        A = self.A(f)
        for p in Machine(f, A).paths():
            if p.dec or p.end[0] != 'ret':
                raise Stop('createHuffmanTree: cases not recognised')
            h = lin(p.end[1])
            al = {e[1]: e[2] for e in p.ev('alloc')}
            zero = {}
            for e in p.ev('set'):
                if const(e[2]) == 0:
                    zero[e[1]] = e[3]
            if h not in al:
                raise Stop('createHuffmanTree: the tree is not allocated here')
            fld = {}
            for e in p.ev('store'):
                d = ladd(e[1], h, -1)
                if not d.t:
                    fld[d.c] = lin(e[3])
            n = fld.get(0)
            self.snum = [o for o, v in fld.items() if v == A[0]]
            self.all = [(o, v.t[0][1]) for o, v in fld.items() if v is not None and v.c == 0 and len(v.t) == 1 and v.t[0][0] == A[0].t[0][0] and o not in self.snum]
            for what, off, need in (('nodes', self.pool, 2 * self.nsize), ('codes', self.code_off, 8), ('code lengths', self.cout_off, 1)):
                b = fld.get(off)
                ok = b in al
                self.ob('fresh-tree', f, ok, 'no room is made for the %s of a tree' % what)
                if not ok:
                    continue
                self.ob('fresh-tree', f, zero.get(b) == al[b], 'the %s of a new tree are not all zero: %s of %s bytes cleared' % (what, zero.get(b), al[b]))
                k = dict(al[b].t).get(A[0].t[0][0], 0)
                self.ob('fresh-tree', f, len(al[b].t) == 1 and al[b].c >= 0 and k >= need, 'room for the %s of a tree: %s bytes' % (what, al[b]))
            z = zero.get(h) == al[h]
            for what, off in (('number of nodes', self.nn),):
                v = fld.get(off)
                self.ob('fresh-tree', f, v == K(0) or v is None and z, 'the %s of a new tree starts at %r' % (what, v))
            self.fld, self.al, self.hz = fld, al, z
        self.c.unit('createHuffmanTree', fields=len(self.fld))

    # ------------------------------------------------------------ queue
    def queue(self, fn, insert):
        """what is put into the queue comes out of it once: every move fills the free slot and frees the one it reads"""
        f = self.F(fn)
        A = self.A(f)
        huff = A[0]
        if [a['ty'] for a in f['args']] != (['ptr', 'ptr'] if insert else ['ptr']):
            raise Stop(fn + ': parameters not recognised')
        heads = [i['id'] for l in f['loops'] for b in f['blocks'] if b['id'] == l['header'] for i in b['ins'] if i['op'] == 'phi' and i['ty'] != 'ptr']
        ps = Machine(f, A).paths()
        # end of the queue: the field that is moved by one
        ends = set()
        for p in ps:
            for e in p.ev('store'):
                v = lin(e[3]) if e[2] == 4 else None
                d = ladd(e[1], huff, -1)
                if v is not None and not d.t and len(v.t) == 1 and v.t[0][0][0] == 'ld' and v.t[0][0][1] == e[1]:
                    ends.add(d.c)
        if len(ends) != 1:
            raise Stop(fn + ': end of the queue not recognised')
        self.qend = ends.pop()
        best = None
        for role in heads or [None]:
            bad = []
            for p in ps:
                bad += self.hole(f, p, A, insert, role, ps)
            if best is None or len(bad) < len(best):
                best = bad
        for m, i in best:
            self.ob('queue', f, False, m, i)
        if not best:
            for p in ps:
                self.ob('queue', f, True, '')
        self.c.unit(fn, paths=len(ps))

    def hole(self, f, p, A, insert, role, ps):
        huff = A[0]
        end = atom(('ld', ladd(huff, K(self.qend)), 4, 0))
        bad = []
        stores = p.ev('store')
        if not insert and p.end[0] == 'ret' and const(p.end[1]) == 0:
            ok = not stores and any(k[0] == 'c' and k[1] == 'lt' and epochless(k[2]) == end and (const(k[3]) or 9) <= 2 and v == 1 for k, v in p.dec.items())
            return [] if ok else [('nothing is taken out though the queue need not be empty', None)]
        adv = [e for e in stores if e[1] == ladd(huff, K(self.qend))]
        new = ladd(end, K(1 if insert else -1))
        if len(adv) != 1 or epochless(lin(adv[0][3])) != new:
            bad.append(('the queue does not get %s by one' % ('longer' if insert else 'shorter'), adv[0][4] if adv else None))
        free = end if insert else K(1)
        filled = False

        def slot(a):
            pf, rest = strip(epochless(a))
            if pf is None:
                return None
            q = ladd(pf, huff, -1)
            if q.t:
                return None
            self.qq = q.c
            low = low_const(Lin(rest.t, 0)) if rest.t else 3
            if low < 3 or rest.c % 8:
                return None
            return Lin([(t, k // 8) for t, k in rest.t], rest.c // 8)
        first = None
        for n, e in enumerate(p.events):
            if e[0] == 'arrive':
                if role is not None:
                    v = lin(e[2].get(role))
                    if v is None or epochless(v) != free:
                        bad.append(('the free slot %r is not the one the loop starts with: %r' % (free, v), None))
                    free = atom(('phi', role))
            if e[0] == 'store' and e not in adv:
                X = slot(e[1])
                if X is None:
                    raise Stop(f['dem'] + ': store not recognised: %r' % e[1])
                if first is None:
                    first = n
                if X != free or filled:
                    bad.append(('slot %r is overwritten though %s is the free one' % (X, 'none' if filled else repr(free)), e[4]))
                    return bad
                v = lin(e[3])
                if insert and v == A[1]:
                    filled = True
                    continue
                g = ld(v)
                Y = slot(g[0]) if g else None
                if Y is None:
                    bad.append(('slot %r gets %r, which is not from the queue' % (X, v), e[4]))
                    return bad
                if not insert and Y == new:
                    filled = True
                    continue
                if not insert and not self.inside(p, Y, new, ps):
                    bad.append(('slot %r is moved though it may lie behind the end of the queue' % Y, e[4]))
                r = self.order(p, Y, insert, A, slot)
                if r:
                    bad.append((r, e[4]))
                free = Y
        if p.end[0] == 'back':
            v = lin(p.end[2].get(role)) if role is not None else None
            if v is None or epochless(v) != free or filled:
                bad.append(('the loop goes on with slot %r while %s is free' % (v, 'none' if filled else repr(free)), None))
        elif p.end[0] == 'ret':
            if not filled:
                bad.append(('slot %r stays free' % free, None))
            if not insert:
                g = ld(p.end[1])
                ok = g is not None and slot(g[0]) == K(1)
                le = [n for n, e in enumerate(p.events) if e[0] == 'load' and lin(e[3]) == lin(p.end[1])]
                ok = ok and le and (first is None or le[0] < first)
                if not ok:
                    bad.append(('what is taken out is not what was in slot 1: %r' % (lin(p.end[1]),), None))
        return bad

    def inside(self, p, Y, new, ps):
        """Y < new on this path"""
        def dec(p, y):
            for d, v in p.dec.items():
                if d[0] == 'c' and d[1] == 'lt' and v == 1:
                    x = ladd(epochless(lin(d[2])), y, -1)
                    z = ladd(epochless(lin(d[3])), new, -1)
                    if not x.t and not z.t and x.c >= z.c:
                        return True
            return False
        if dec(p, Y):
            return True
        ph = [t for t, k in Y.t if t[0] == 'phi']
        if len(ph) != 1 or Y != atom(ph[0]):
            return False
        for q in ps:
            ar = [e for e in q.events if e[0] == 'arrive']
            if not ar:
                continue
            v = lin(ar[0][2].get(ph[0][1]))
            if v is None or not dec(q, v):
                return False
            if q.end[0] == 'back':
                v = lin(q.end[2].get(ph[0][1]))
                if v is None or not dec(q, v):
                    return False
        return True

    def order(self, p, Y, insert, A, slot):
        """the comparison that lets Y move favours it"""
        for d, v in p.dec.items():
            if d[0] != 'c' or d[1] != 'lt':
                continue
            a, b = ld(d[2]), ld(d[3])
            if not a or not b:
                continue
            x, y = [ladd(epochless(q[0]), K(-(self.ffreq or 0))) for q in (a, b)]
            sx, sy = [slot(ld(q)[0]) if ld(q) else None for q in (x, y)]
            if insert:
                if sy == Y and x == A[1] and v == 0 or sx == Y and y == A[1] and v == 1:
                    return 'a node moves down before one that is not smaller'
            else:
                if sx == Y and v == 0 and sy is not None or sy == Y and v == 1 and sx is not None:
                    return 'the larger of two nodes moves up'
        return None

    # ------------------------------------------------------------ building the tree
    def init_tree(self):
        """one leaf per code that occurs, joined two by two until one tree is left, whose codes are filed"""
        f = self.F('init')
        A = self.A(f)
        if [a['ty'] for a in f['args']] != ['ptr', 'ptr', 'i64']:
            raise Stop('init: parameters not recognised')
        huff, s, length = A
        nn, ins, rem, bc = [self.F(n)['name'] for n in ('new_node', 'qinsert', 'qremove', 'build_code')]
        e0 = self.fld.get(self.qend)
        q0 = self.fld.get(self.qq)
        self.ob('empty-queue', self.F('createHuffmanTree'), e0 == K(1) and q0 is not None and ladd(q0, K(8)) in self.al,
                'a new queue does not start empty: end %r, slots from %r' % (e0, q0))
        ps = Machine(f, A, call=lambda c, d, a, M, r: None).paths()
        done = 0
        for p in ps:
            if p.end[0] == 'dead':
                continue
            al = p.ev('alloc')
            if len(al) != 1:
                raise Stop('init: table of frequencies not recognised')
            T, size = al[0][1], al[0][2]
            z = [e for e in p.ev('set') if e[1] == T]
            self.ob('frequencies', f, len(z) == 1 and const(z[0][2]) == 0 and z[0][3] == size, 'the table of frequencies is not cleared over its whole length')
            cur, cnt, merged = None, None, None
            for n, e in enumerate(p.events):
                if e[0] == 'arrive':
                    cur = e
                if e[0] == 'store' and e[2] == 8 and ladd(e[1], T, -1).t:
                    x = ladd(e[1], T, -1)
                    v = lin(e[3])
                    ok = ld(ladd(v, K(-1))) == (e[1], 8) if v is not None else False
                    self.ob('frequencies', f, ok, 'an occurrence does not count once: %r' % v, e[4])
                    if len(x.t) != 1 or x.t[0][1] != 8 or x.c or x.t[0][0][0] != 'ld' or x.t[0][0][2] != 4:
                        self.ob('frequencies', f, False, 'an occurrence is counted at %r' % x, e[4])
                        continue
                    a = x.t[0][0][1]
                    if cur is None:
                        raise Stop('init: counting loop not recognised')
                    q = Path_cut(p, cur)
                    if q is not None:
                        m = self.counts(q, cur[1], a, s, length, 4)
                        self.ob('frequencies', f, m is None, m[0] if m else '')
                        r = self.rounds(q, cur, a)
                        self.ob('frequencies', f, r in (None, (s, K(4))), 'codes are counted from %r in steps of %r' % (r or (0, 0)))
                        self.ob('frequencies', f, self.wide(f, a), 'codes are counted in less than 64 bits')
                if e[0] == 'call' and e[1] == nn:
                    a = e[3]
                    if const(a[1]) == 0:
                        prev = [x for x in p.events[:n] if x[0] == 'call'][-2:]
                        ok = len(prev) == 2 and all(x[1] == rem and x[3][0] == huff for x in prev) and {lin(a[3]), lin(a[4])} == {prev[0][4], prev[1][4]}
                        self.ob('join', f, ok, 'what is joined is not two different nodes just taken from the queue: %r, %r' % (a[3], a[4]), e[5])
                        g = [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'lt' and const(d[2]) == 2 and self.isfield(d[3], huff, self.qend)] + \
                            [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'lt' and const(d[3]) == 3 and self.isfield(d[2], huff, self.qend)]
                        self.ob('join', f, bool(g), 'nodes are joined without a test that the queue holds two', e[5])
                    else:
                        g = ld(a[1])
                        x = ladd(g[0], T, -1) if g else None
                        ok = x is not None and a[2] is not None and lmul(lin(a[2]), 8) == x and g[1] == 8
                        self.ob('leaves', f, ok, 'a leaf for code %s gets the frequency at %r' % (lin(a[2]), x), e[5])
                        if ok:
                            zero = [(d, v) for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'eq' and lin(d[2]) == lin(a[1]) and const(d[3]) == 0]
                            self.ob('leaves', f, bool(zero) and zero[0][1] == 0, 'a leaf is made for a code that need not occur', e[5])
                            q = Path_cut(p, cur)
                            if q is not None:
                                m = self.all_codes(q, cur, lin(a[2]), huff)
                                self.ob('leaves', f, m is None, m or '')
                    nxt = [x for x in p.events[n + 1:] if x[0] == 'call'][:1]
                    ok = nxt and nxt[0][1] == ins and nxt[0][3][0] == huff and lin(nxt[0][3][1]) == e[4]
                    self.ob('join' if const(a[1]) == 0 else 'leaves', f, bool(ok), 'a new node is not put into the queue', e[5])
                if e[0] == 'call' and e[1] == bc:
                    done += 1
                    a = e[3]
                    pf, rest = strip(epochless(lin(a[1])))
                    g = ld(a[1])
                    pf, rest = strip(epochless(g[0])) if g else (None, None)
                    ok = g is not None and pf == ladd(huff, K(self.qq)) and rest == K(8) and a[0] == huff and const(a[2]) == 0 and const(a[3]) == 0
                    self.ob('codes', f, ok, 'codes are not filed for the whole tree, from depth 0: %s' % a, e[5])
                    w = [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'lt' and const(d[2]) == 2 and self.isfield(d[3], huff, self.qend)] + \
                        [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'lt' and const(d[3]) == 3 and self.isfield(d[2], huff, self.qend)]
                    last = w[-1] if w else None
                    self.ob('codes', f, last == 0 or (last == 1 and w and False), 'codes are filed while the queue may hold more than one node', e[5])
            if p.end[0] == 'ret' and not [e for e in p.ev('call') if e[1] == bc]:
                self.ob('codes', f, False, 'no codes are filed')
        if not done:
            self.ob('codes', f, False, 'no codes are filed')
        f = self.F('build_Huffman_tree')
        A = self.A(f)
        st = [a['ty'] for a in f['args']]
        if st != ['i64', 'ptr', 'i64']:
            raise Stop('build_Huffman_tree: parameters not recognised')
        for p in Machine(f, A).paths():
            c = p.ev('call')
            ok = len(c) == 2 and c[0][1] == self.F('createHuffmanTree')['name'] and lin(c[0][3][0]) == A[0] and c[1][1] == self.F('init')['name'] and \
                [lin(x) for x in c[1][3]] == [c[0][4], A[1], A[2]] and lin(p.end[1]) == c[0][4]
            self.ob('tree', f, ok, 'the tree is not made for the number of states and the codes given')
        self.c.unit('init', paths=len(ps))

    def isfield(self, v, huff, off):
        g = ld(lin(v)) if v is not None else None
        return g is not None and epochless(g[0]) == ladd(huff, K(off))

    def all_codes(self, p, arrive, code, huff):
        """the loop over the codes runs from 0 to the number of states or more"""
        r = self.rounds(p, arrive, code)
        if r is not None and r != (K(0), K(1)):
            return 'codes are looked at from %r in steps of %r' % r
        for d, v in p.dec.items():
            if d[0] != 'c':
                continue
            for x, y in ((d[2], d[3]), (d[3], d[2])):
                g = ld(lin(y)) if not const(y) else None
                if g is None:
                    continue
                o = ladd(epochless(g[0]), huff, -1)
                if o.t or not (o.c in self.snum or o.c in [q for q, k in self.all]):
                    continue
                if d[1] == 'eq' and lin(x) == ladd(code, K(1)):
                    return None if v == (p.end[0] != 'back') else 'the loop over the codes ends early'
                if d[1] == 'lt' and x is d[2] and lin(x) == ladd(code, K(1)):
                    return None if v == (p.end[0] == 'back') else 'the loop over the codes ends early'
                if d[1] == 'lt' and x is d[2] and lin(x) == code:
                    return None
        return 'the loop over the codes is not bounded by their number'

    # ------------------------------------------------------------ the tree as arrays
    def pads(self):
        """every node gets a number of its own; its symbol, flag and the numbers of its children go to the entries of that number"""
        self.pad, self.unpad = {}, {}
        for n, f in self.fj.items():
            if re.match(r'pad_tree_', n):
                self.part(n, lambda: self.pad_one(n, f))
            if re.match(r'unpad_tree_', n):
                self.part(n, lambda: self.unpad_one(n, f))

    def pad_one(self, n, f):
        A = self.A(f)
        tys = [a['ty'] for a in f['args']]
        ps = Machine(f, A).paths()
        roots = set()
        for p in ps:
            for d in p.dec:
                g = ld(lin(d[2])) if d[0] == 'c' else None
                for a in A:
                    if g and field(lin(d[2]), a) in self.kid.values():
                        roots.add(a)
        if len(roots) != 1:
            raise Stop('node not recognised')
        root = roots.pop()
        idx = [a for a, t in zip(A, tys) if t == 'i32']
        if len(idx) != 1:
            raise Stop('number of the node not recognised')
        idx = idx[0]
        role, width = {}, {}
        num = None
        for p in ps:
            kids = {}
            for d, v in p.dec.items():
                if d[0] != 'c' or d[1] != 'eq' or const(d[3]) != 0 or field(lin(d[2]), root) not in self.kid.values():
                    raise Stop('cases not recognised: ' + name(d))
                kids[field(epochless(lin(d[2])), root)] = v
            left = list(p.ev('store'))

            def entry(e):
                """(array argument, element size) of a store to this node's entry of an array"""
                for q, a in enumerate(A):
                    d = ladd(e[1], a, -1)
                    if d == lmul(idx, e[2]) and a != idx:
                        return q
                return None
            calls = 0
            pend = {}
            owed = []
            for e in p.events:
                if e[0] == 'store':
                    q = entry(e)
                    v = lin(e[3])
                    fo = field(epochless(v), root) if v is not None else None
                    if q is not None and fo in (self.fc, self.ft):
                        k = 'sym' if fo == self.fc else 'flag'
                        if e[2] != (4 if k == 'sym' else 1):
                            self.ob('tree-array', f, False, 'the %s is stored in %d bytes' % (k, e[2]), e[4])
                        self.same(f, role, k, q, e)
                        pend[k] = 1
                    elif q is not None and [o for o in owed if o[1] == v]:
                        # the number is filed after the subtree was visited
                        o = [o for o in owed if o[1] == v][0]
                        owed.remove(o)
                        self.same(f, role, o[0], q, e)
                        width[o[0]] = e[2]
                    elif q is not None:
                        pend['num'] = (q, e[2], v, calls, e)
                    elif v is not None and ld(ladd(v, K(-1))) and ld(ladd(v, K(-1)))[0] == e[1]:
                        num = e[1]
                        t = ladd(v, K(-1)).t[0][0]
                        if t[3] != calls:
                            self.ob('node-number', f, False, 'the counter of nodes goes back to what it was before the first subtree', e[4])
                        pend['new'] = v
                    else:
                        self.ob('tree-array', f, False, 'a store outside the entries of the node: %r' % e[1], e[4])
                if e[0] == 'call':
                    if e[1] != f['name']:
                        raise Stop('call not recognised')
                    a = [lin(x) if x is not None else None for x in e[3]]
                    ri, ii = A.index(root), A.index(idx)
                    kid = field(epochless(a[ri]), root)
                    q = pend.get('num')
                    ok = pend.get('new') is not None and (q is None or q[2] == pend['new'] and q[3] == calls)
                    if q is None and ok:
                        owed.append((kid, pend['new'], e))
                    self.ob('node-number', f, ok and a[ii] == pend.get('new'), 'a subtree gets the number %s while %s is filed and %s is the next free one' % (a[ii], q and q[2], pend.get('new')), e[5])
                    if kid not in self.kid.values():
                        raise Stop('subtree not recognised')
                    self.ob('subtree', f, kids.get(kid) == 0, 'a subtree that is not there is visited', e[5])
                    if q is not None:
                        self.same(f, role, kid, q[0], q[4])
                        width[kid] = q[1]
                    rest = [x for k, x in enumerate(a) if k not in (ri, ii)]
                    self.ob('subtree', f, rest == [x for k, x in enumerate(A) if k not in (ri, ii)], 'a subtree goes to other arrays', e[5])
                    calls += 1
                    kids[kid] = 2
                    pend.pop('num', None)
                    pend.pop('new', None)
            self.ob('subtree', f, 0 not in kids.values() and len(kids) == 2, 'a subtree is left out')
            self.ob('tree-array', f, 'sym' in pend and 'flag' in pend, 'the symbol or the flag of a node is left out')
            for o in owed:
                self.ob('node-number', f, False, 'the number %s of a subtree is not filed' % o[1], o[2][5])
            if pend.get('num'):
                self.ob('tree-array', f, False, 'a child that is not there gets a number')
        if len(set(role.values())) != 4 or len(role) != 4:
            self.ob('tree-array', f, False, 'the four arrays are not told apart: %s' % role)
        if len(set(width.values())) != 1:
            raise Stop('widths of the arrays differ')
        o = ladd(num, A[0], -1) if num is not None else None
        if o is None or o.t:
            raise Stop('counter of nodes not recognised')
        v = self.fld.get(o.c)
        self.ob('node-number', f, v == K(0) or v is None and self.hz, 'the numbers of the nodes do not start after that of the root')
        self.pad[f['name']] = (role, width[self.kid[0]], A.index(idx), A.index(root))
        self.c.unit(n, paths=len(ps), width=width[self.kid[0]])

    def same(self, f, role, k, q, e):
        if role.setdefault(k, q) != q:
            self.ob('tree-array', f, False, 'the same thing goes to two arrays', e[4])

    def unpad_one(self, n, f):
        A = self.A(f)
        tys = [a['ty'] for a in f['args']]
        nn2 = self.F('new_node2')['name']
        ps = Machine(f, A).paths()
        roots = {a for p in ps for d in p.dec for a in A if d[0] == 'c' and field(lin(d[2]), a) == self.ft}
        idx = [a for a, t in zip(A, tys) if t == 'i32']
        if len(roots) != 1 or len(idx) != 1:
            raise Stop('node not recognised')
        root, idx = roots.pop(), idx[0]
        role, width = {}, {}
        for p in ps:
            flag = [v for d, v in p.dec.items() if d[0] == 'c' and field(lin(d[2]), root) == self.ft]
            if flag == [0]:
                self.ob('read-tree', f, not p.ev('store') and not p.ev('call'), 'a leaf gets children')
                continue
            if flag != [1]:
                raise Stop('cases not recognised')
            kids = {}
            for d, v in p.dec.items():
                g = ld(lin(d[2])) if d[0] == 'c' and d[1] == 'eq' and const(d[3]) == 0 else None
                if g is None or field(lin(d[2]), root) == self.ft:
                    continue
                q = [k for k, a in enumerate(A) if ladd(g[0], a, -1) == lmul(idx, g[1]) and a != idx]
                if len(q) != 1:
                    self.ob('read-tree', f, False, 'the number of a child is read at %r' % g[0])
                    raise Stop('number of a child not recognised')
                kids[q[0]] = (v, epochless(lin(d[2])), g[1])
            node, seen = None, {}
            for e in p.events:
                if e[0] == 'call' and e[1] == nn2:
                    a = [epochless(lin(x)) if x is not None else None for x in e[3]]
                    gs, gf = ld(a[1]), ld(a[2])
                    if gs is None or gf is None or gs[1] != 4 or gf[1] != 1:
                        raise Stop('symbol or flag of a child not recognised')
                    m = [(qs, qf, k) for qs, x in enumerate(A) for qf, y in enumerate(A) for k, (v, num, w) in kids.items()
                         if ladd(gs[0], x, -1) == lmul(num, 4) and ladd(gf[0], y, -1) == num]
                    if len(m) != 1:
                        self.ob('read-tree', f, False, 'a child does not get the symbol and the flag of its number: %r, %r' % (a[1], a[2]), e[5])
                        node = (e[4], None)
                        continue
                    self.same(f, role, 'sym', m[0][0], (0, 0, 0, 0, e[5]))
                    self.same(f, role, 'flag', m[0][1], (0, 0, 0, 0, e[5]))
                    node = (e[4], m[0][2])
                elif e[0] == 'store':
                    o = ladd(e[1], root, -1)
                    if o.t or o.c not in self.kid.values() or node is None or lin(e[3]) != node[0]:
                        self.ob('read-tree', f, False, 'what is put at %r is not the child just made' % e[1], e[4])
                        continue
                    if node[1] is not None:
                        self.same(f, role, o.c, node[1], e)
                        width[o.c] = kids[node[1]][2]
                        seen[node[1]] = 1
                elif e[0] == 'call':
                    if e[1] != f['name']:
                        raise Stop('call not recognised')
                    a = [epochless(lin(x)) if x is not None else None for x in e[3]]
                    ri, ii = A.index(root), A.index(idx)
                    ok = node is not None and a[ri] == node[0] and node[1] is not None and same_num(a[ii], kids[node[1]][1])
                    self.ob('read-tree', f, ok, 'the subtree read next is not that of the child just made', e[5])
                    rest = [x for k, x in enumerate(a) if k not in (ri, ii)]
                    self.ob('read-tree', f, rest == [x for k, x in enumerate(A) if k not in (ri, ii)], 'a subtree is read from other arrays', e[5])
                    if node and node[1] is not None:
                        seen[node[1]] = 2
            for k, (v, num, w) in kids.items():
                self.ob('read-tree', f, (seen.get(k) == 2) == (v == 0), 'a child with number 0 is made, or one with another number is not')
            self.ob('read-tree', f, len(kids) == 2, 'not both children are looked at')
        if len(set(width.values())) != 1 or len(role) != 4:
            raise Stop('arrays not recognised')
        self.unpad[f['name']] = (role, width[self.kid[0]], A.index(idx), A.index(root))
        self.c.unit(n, paths=len(ps), width=width[self.kid[0]])

    def layout(self):
        """what is written of the tree is read from the same places, for every number of nodes"""
        fw, fr = self.F('convert_HuffTree_to_bytes_anyStates'), self.F('reconstruct_HuffTree_from_bytes_anyStates')
        Aw, Ar = self.A(fw), self.A(fr)
        if [a['ty'] for a in fw['args']] != ['ptr', 'i32', 'ptr'] or [a['ty'] for a in fr['args']] != ['ptr', 'ptr', 'i32']:
            raise Stop('parameters not recognised')
        nw, nr = Aw[1], Ar[2]

        def interval(p, n):
            lo, hi = 1, 1 << 31
            for d, v in p.dec.items():
                if d[0] == 'c' and d[1] == 'lt' and lin(d[2]) == n and const(d[3]) is not None:
                    lo, hi = (lo, min(hi, const(d[3]))) if v else (max(lo, const(d[3])), hi)
                elif d[0] == 'c' and d[1] == 'lt' and lin(d[3]) == n and const(d[2]) is not None:
                    lo, hi = (max(lo, const(d[2]) + 1), hi) if v else (lo, min(hi, const(d[2]) + 1))
                elif d[0] == 'c' and d[1] == 'eq' and lin(d[2]) == n and const(d[3]) == 0 and not v:
                    pass
                else:
                    raise Stop('cases not recognised: ' + name(d))
            return lo, hi

        def odd(lo, hi):
            """a tree in which every inner node has two children has an odd number of nodes"""
            return lo | 1, hi - hi % 2
        W, R = [], []
        for p in Machine(fw, Aw).paths():
            lo, hi = interval(p, nw)
            if lo < hi:
                W.append((lo, hi, self.written(fw, Aw, p, nw, *odd(lo, hi)) if (lo | 1) < hi else None))
        for p in Machine(fr, Ar).paths():
            lo, hi = interval(p, nr)
            if lo < hi:
                R.append((lo, hi, self.read(fr, Ar, p, nr, *odd(lo, hi)) if (lo | 1) < hi else None))

        def at(x, n, k):
            return None if x is None else sum(c * (k if atom(t) == n else 10 ** 9) for t, c in x.t) + x.c
        for lo, hi, w in W:
            for lo2, hi2, r in R:
                a, b = odd(max(lo, lo2), min(hi, hi2))
                if a >= b or w is None or r is None:
                    continue
                for k in {a, b - 1}:
                    for what in w['at']:
                        x, y = w['at'][what], r['at'].get(what)
                        ok = y is not None and x[2] == y[2] and at(x[0], nw, k) == at(y[0], nr, k) and at(x[1], nw, k) == at(y[1], nr, k)
                        self.ob('tree-bytes', fr, ok, 'with %d nodes %s is written at %s (%s bytes, entries of %d) and read from %s' %
                                (k, what, x[0], x[1], x[2], y and '%s (%s bytes, entries of %d)' % y))
        for side in (W, R):
            iv = sorted((lo, hi) for lo, hi, x in side)
            if not iv or iv[0][0] > 1 or iv[-1][1] < 1 << 31 or any(a[1] != b[0] for a, b in zip(iv, iv[1:])):
                raise Stop('numbers of nodes not covered')
        self.c.unit('layout', writer=len(W), reader=len(R))

    def arrays(self, f, p, n, hi):
        al = {e[1]: e[2] for e in p.ev('alloc')}
        zero = {e[1]: e[3] for e in p.ev('set') if const(e[2]) == 0}
        return al, zero

    def written(self, f, A, p, n, lo, hi):
        al, zero = self.arrays(f, p, n, hi)
        call = [e for e in p.ev('call')]
        if len(call) != 1 or call[0][1] not in self.pad:
            raise Stop('numbering of the nodes not recognised')
        role, w, ii, ri = self.pad[call[0][1]]
        a = [lin(x) if x is not None else None for x in call[0][3]]
        g = ld(a[ri]) if a[ri] is not None else None
        pf, rest = strip(epochless(g[0])) if g else (None, None)
        ok = g is not None and pf == ladd(A[0], K(self.qq)) and rest == K(8) and const(a[ii]) == 0 and a[0] == A[0]
        self.ob('tree-bytes', f, ok, 'what is numbered is not the whole tree, from 0', call[0][5])
        self.ob('node-width', f, hi - 1 <= 1 << (8 * w), 'numbers of up to %d nodes are kept in %d bytes' % (hi - 1, w), call[0][5])
        out = [lin(e[3]) for e in p.ev('store') if e[1] == A[2]]
        if len(out) != 1 or out[0] not in al:
            raise Stop('result not recognised')
        out = out[0]
        res, end = {}, K(1)
        for what, q in role.items():
            size = w if what in self.kid.values() else 4 if what == 'sym' else 1
            arr = a[q]
            label = what if isinstance(what, str) else 'child [n+%d]' % what
            need = lmul(n, size)
            self.ob('tree-bytes', f, al.get(arr) == need and zero.get(arr) == need, 'the array of the %s has %s bytes, %s of them cleared; %s are needed' % (label, al.get(arr), zero.get(arr), need))
            c = [e for e in p.ev('copy') if e[2] == arr]
            if len(c) != 1:
                self.ob('tree-bytes', f, False, 'the array of the %s is written %d times' % (label, len(c)))
                return None
            o = ladd(c[0][1], out, -1)
            res[label] = (o, c[0][3], size)
            self.ob('tree-bytes', f, c[0][3] == need, '%s bytes of the array of the %s are written' % (c[0][3], label), c[0][4])
        total = lin(p.end[1])
        # no overlap, inside the buffer
        for k in {lo, hi - 1}:
            def at(x):
                return sum(c * (k if atom(t) == n else 10 ** 12) for t, c in x.t) + x.c
            sp = sorted((at(o), at(o) + at(l)) for o, l, s in res.values())
            self.ob('tree-bytes', f, all(x[1] <= y[0] for x, y in zip(sp, sp[1:])), 'arrays overlap in the result with %d nodes' % k)
            self.ob('tree-bytes', f, total is not None and sp[-1][1] <= at(total) and at(total) <= at(al[out]), 'the result of %s bytes is said to have %s with %d nodes' % (al[out], total, k))
        for e in p.ev('store'):
            d = ladd(e[1], out, -1)
            if not d.t:
                self.ob('tree-bytes', f, all(d.c + e[2] <= o.c for o, l, s in res.values()), 'a byte of the header lies in an array', e[4])
        return {'at': res}

    def read(self, f, A, p, n, lo, hi):
        al, zero = self.arrays(f, p, n, hi)
        nn2 = self.F('new_node2')['name']
        call = p.ev('call')
        up = [e for e in call if e[1] in self.unpad]
        nw = [e for e in call if e[1] == nn2]
        if len(up) != 1 or len(nw) != 1 or len(call) != 2:
            raise Stop('reading of the nodes not recognised')
        role, w, ii, ri = self.unpad[up[0][1]]
        a = [lin(x) if x is not None else None for x in up[0][3]]
        ok = const(a[ii]) == 0 and a[ri] == nw[0][4] and lin(p.end[1]) == nw[0][4] and a[0] == A[0] and lin(nw[0][3][0]) == A[0]
        self.ob('tree-bytes', f, ok, 'the tree returned is not the one read from entry 0', up[0][5])
        s, t = nw[0][3][1], nw[0][3][2]
        gs, gt = ld(s), ld(t)
        full = gt is not None and epochless(gt[0]) == a[role['flag']] and gs is not None and epochless(gs[0]) == a[role['sym']]
        zero_root = const(t) == 0 and lo > 1
        inside = const(t) is None and gt is not None
        self.ob('root', f, full or zero_root, 'the root gets the flag %r and the symbol %r' % (lin(t), lin(s)), nw[0][5])
        res = {}
        for what, q in role.items():
            size = w if what in self.kid.values() else 4 if what == 'sym' else 1
            arr = a[q]
            label = what if isinstance(what, str) else 'child [n+%d]' % what
            c = [e for e in p.ev('copy') if e[1] == arr]
            src = None
            if len(c) == 1:
                src, length = ladd(c[0][2], A[1], -1), c[0][3]
                at = p.events.index(c[0])
                self.ob('tree-bytes', f, at < p.events.index(up[0]), 'the array of the %s is filled after it is used' % label, c[0][4])
                self.ob('tree-bytes', f, arr in al and al[arr] == lmul(n, size), 'the array of the %s has %s bytes' % (label, al.get(arr)), c[0][4])
            elif not c and arr is not None:
                src, length = ladd(arr, A[1], -1), lmul(n, size)        # used in place
            if src is None or any(atom(x) != n for x, k in src.t):
                raise Stop('source of the %s not recognised' % label)
            res[label] = (src, length, size)
        return {'at': res}

    # ------------------------------------------------------------ the stream
    def stream(self):
        """writer and reader of a coded array agree on every field and on where it ends"""
        fw, fr = self.F('Huffman_encode_tree_and_data'), self.F('Huffman_decode_tree_and_data')
        Aw, Ar = self.A(fw), self.A(fr)
        if [a['ty'] for a in fw['args']] != ['i64', 'ptr', 'i64', 'ptr'] or [a['ty'] for a in fr['args']] != ['i64', 'i64', 'ptr']:
            raise Stop('parameters not recognised')
        state, typ, num, pos = Aw
        rstate, rnum, rpos = Ar
        P, Q = [('ld', x, 8, 0) for x in (pos, rpos)]
        nm = {n: self.F(n)['name'] for n in ('build_Huffman_tree', 'convert_HuffTree_to_bytes_anyStates', 'encode', 'createHuffmanTree', 'reconstruct_HuffTree_from_bytes_anyStates', 'decode')}

        def at(a, base):
            a = epochless(a)
            return ladd(a, atom(base), -1) if a is not None and dict(a.t).get(base) == 1 else None

        def empty(p, n):
            return not p.ev('call') and not [e for e in p.ev('store')]
        W, B = [], []
        for p in Machine(fw, Aw, keep=lambda k: k == (pos.t, k[1])).paths():
            if p.end[0] == 'back':
                B.append(p)
            if p.end[0] != 'ret':
                continue
            z = [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'eq' and {lin(d[2]), lin(d[3])} == {num, K(0)}]
            if z == [1] or [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'lt' and const(d[2]) == 0 and lin(d[3]) == num] == [0]:
                self.ob('empty', fw, empty(p, num), 'an empty array takes bytes or needs a tree')
                continue
            if not z:
                c = p.ev('call')
                self.ob('empty', fw, not c, 'a tree is built for an array that may be empty', c[0][5] if c else None)
            if any(d[0] == 'c' and d[1] == 'eq' and const(d[3]) == 0 and v and (lin(d[2]) == state or self.snum_of(d[2], [e[4] for e in p.ev('call')])) for d, v in p.dec.items()):
                continue                    # no states: no codes
            W.append(p)
        R = []
        for p in Machine(fr, Ar, keep=lambda k: k == (rpos.t, k[1])).paths():
            if p.end[0] != 'ret':
                continue
            z = [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'eq' and {lin(d[2]), lin(d[3])} == {rnum, K(0)}]
            if z == [1] or [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'lt' and const(d[2]) == 0 and lin(d[3]) == rnum] == [0]:
                self.ob('empty', fr, empty(p, rnum), 'bytes are read for an empty array')
                continue
            R.append(p)
        if not W or not R:
            raise Stop('cases not recognised')
        for p in W:
            c = {k: [e for e in p.ev('call') if e[1] == v] for k, v in nm.items()}
            bt, cv, en = c['build_Huffman_tree'], c['convert_HuffTree_to_bytes_anyStates'], c['encode']
            if not (len(bt) == len(cv) == len(en) == 1):
                raise Stop('writer not recognised')
            bt, cv, en = bt[0], cv[0], en[0]
            self.ob('stream', fw, [lin(x) for x in bt[3]] == [state, typ, num], 'the tree is not built for the codes given', bt[5])
            ok = [lin(x) for x in en[3][:3]] == [bt[4], typ, num]
            self.ob('stream', fw, ok, 'what is coded is not the codes given with their tree', en[5])
            self.ob('stream', fw, lin(cv[3][0]) == bt[4], 'the tree written is another one', cv[5])
            nodes = epochless(lin(cv[3][1]))
            self.node_count(fw, p, nodes, bt[4], state, cv, B)
            fields = {}
            tree = None
            for e in p.ev('store'):
                o = at(e[1], P)
                if o is not None:
                    fields[o] = (e[2], epochless(lin(e[3])) if e[3] is not None else None, e)
            for e in p.ev('copy'):
                o = at(e[1], P)
                g = ld(e[2])
                if o is not None and g and g[0] == lin(cv[3][2]):
                    tree = (o, epochless(e[3]), e)
                elif o is not None:
                    raise Stop('writer: copy not recognised')
            if tree is None:
                raise Stop('writer: tree not recognised')
            self.ob('stream', fw, tree[1] == cv[4], 'not the whole tree is written: %r bytes' % tree[1], tree[2][4])
            data = at(lin(en[3][3]), P)
            size = lin(en[3][4])
            if data is None or size is None:
                raise Stop('writer: codes not recognised')
            n = p.events.index(en)
            ini = [e for e in p.events[:n] if e[0] == 'store' and e[1] == size]
            self.ob('stream', fw, bool(ini) and const(ini[-1][3]) == 0, 'the count of bytes does not start at 0', en[5])
            end = [e for e in p.ev('store') if e[1] == pos]
            end = at(lin(end[-1][3]), P) if end else None
            S = ('ld', size, 8, 0)
            self.ob('stream', fw, end == ladd(data, atom(S)), 'after writing, the cursor is at %s instead of %s' % (end, ladd(data, atom(S))))
            # nothing is written over another field
            for q in R:
                self.stream_read(fr, q, Ar, Q, nm, fields, tree, data, cv[4], nodes, S, end)
        self.c.unit('stream', writer=len(W), reader=len(R))

    def node_count(self, f, p, nodes, tree, state, cv, backs):
        """2k - 1 with k the number of codes filed"""
        ar = p.ev('arrive')
        if not ar and const(nodes) is not None:
            # no counting on this path: right only for alphabets too small to hold two codes
            poss = []
            for k in (1, 2, 3):
                ok = True
                for d, v in p.dec.items():
                    if d[0] != 'c' or d[1] not in ('eq', 'lt'):
                        continue
                    x, y = [const(u) if const(u) is not None else k if lin(u) == state else None for u in d[2:4]]
                    if x is not None and y is not None and int(x == y if d[1] == 'eq' else x < y) != v:
                        ok = False
                if ok:
                    poss.append(k)
            for k in poss:
                self.ob('node-count', f, k == 1 and const(nodes) == 1, 'the number of nodes is %d for %d codes, whatever was filed' % ((const(nodes) + (1 << 31) & 0xffffffff) - (1 << 31), k), cv[5])
            return
        if len(ar) != 1 or nodes is None:
            raise Stop('writer: number of nodes not recognised')
        phis = [t for t, k in nodes.t if t[0] == 'phi']
        if len(phis) != 1 or dict(nodes.t)[phis[0]] not in (1, 2):
            raise Stop('writer: number of codes not recognised')
        phi = phis[0]
        q = dict(nodes.t)[phi]
        ini = lin(ar[0][2].get(phi[1]))
        if const(ini) is None:
            raise Stop('writer: count of codes not recognised')
        neg64 = lambda c: (c + (1 << 63)) % (1 << 64) - (1 << 63)
        ini = neg64(const(ini))

        def code_test(d):
            """address of what a decision compares with 0"""
            if d[0] != 'c' or d[1] != 'eq' or const(d[3]) != 0:
                return None
            g = ld(lin(d[2]))
            return epochless(g[0]) if g and g[1] == 8 else None

        def cases(p, v):
            """(code there or not, value)"""
            r = [(None, v)]
            for t, k in v.t:
                if t[0] == 'bv' and len(t[1]) == 1 and isinstance(t[1][0], tuple):
                    bit = t[1][0]
                    flip = bit[0] == 'not'
                    x = code_test(bit[1] if flip else bit)
                    if x is None:
                        raise Stop('writer: test of a code not recognised')
                    rest = ladd(v, lmul(atom(t), k), -1)
                    addr.append(x)
                    r = [(1, ladd(rest, K(k if flip else 0))), (0, ladd(rest, K(0 if flip else k)))]
            if r[0][0] is None:
                ds = [(code_test(d), z) for d, z in p.dec.items() if code_test(d) is not None]
                ds = [(x, z) for x, z in ds if any(t[0] == 'phi' for t, k in x.t)]
                if len(ds) != 1:
                    raise Stop('writer: test of a code not recognised')
                addr.append(ds[0][0])
                r = [(1 - ds[0][1], v)]
            return r
        addr = []
        for filed, v in cases(p, nodes):
            d = ladd(v, lmul(atom(phi), q), -1)
            ok = not d.t and neg64(d.c) + q * ini == (1 if filed else -1)
            self.ob('node-count', f, ok, 'the number of nodes is %s times the codes before %+d when the last code is%s there' % (q, neg64(d.c) + q * ini, '' if filed else ' not'), cv[5])
        for b in backs:
            if [e for e in b.ev('arrive')][-1:] and b.end[1] == ar[0][1]:
                v = lin(b.end[2].get(phi[1]))
                if v is None:
                    raise Stop('writer: count of codes not recognised')
                for filed, v in cases(b, v):
                    ok = v == ladd(atom(phi), K(2 // q if filed else 0))
                    self.ob('node-count', f, ok, 'the count of codes becomes %s after one that is%s there' % (v, '' if filed else ' not'), cv[5])
        x = addr[0]
        if any(y != x for y in addr):
            raise Stop('writer: tests of codes differ')
        first, step = None, None
        for b in backs:
            if b.end[1] == ar[0][1]:
                first, step = self.rounds(b, [e for e in b.ev('arrive') if e[1] == ar[0][1]][0], x)
        base = self.sub(x, ar[0][2])
        base = epochless(base) if base is not None else None
        g = ld(base) if base is not None else None
        pf, rest = strip(base) if base is not None else (None, None)
        ok = pf is not None and pf == ladd(tree, K(self.code_off)) and rest == K(0) and (step is None or step == K(8))
        self.ob('node-count', f, ok, 'what is counted is not every code filed: from %s in steps of %s' % (base, step), cv[5])
        if not ok:
            return
        m = None
        for n in [state] + [atom(('ld', ladd(tree, K(o)), 4, 0)) for o in self.snum]:
            m = self.counts(Path_cut(p, ar[0]), ar[0][1], x, base, n, 8)
            if m is None:
                break
        self.ob('node-count', f, m is None, m[0] if m else '', cv[5])

    def snum_of(self, v, trees):
        """v is the number of states filed in a tree"""
        g = ld(lin(v))
        return g is not None and any(t is not None and ladd(epochless(g[0]), t, -1) in [K(o) for o in self.snum] for t in trees)

    def sub(self, x, m):
        """x with loop variables replaced"""
        r = K(x.c)
        for t, k in x.t:
            v = lin(m.get(t[1], atom(t))) if t[0] == 'phi' else atom(t)
            if v is None:
                return None
            r = ladd(r, lmul(v, k))
        return r

    def stream_read(self, f, p, A, Q, nm, fields, tree, data, tsize, nodes, S, wend):
        rstate, rnum, rpos = A
        c = {k: [e for e in p.ev('call') if e[1] == v] for k, v in nm.items()}
        cr, rc, de = c['createHuffmanTree'], c['reconstruct_HuffTree_from_bytes_anyStates'], c['decode']
        if not (len(cr) == len(rc) == len(de) == 1):
            raise Stop('reader not recognised')
        cr, rc, de = cr[0], rc[0], de[0]

        def tr(x):
            """a reader's value in the writer's terms: bytes of the stream replaced by what the writer put there"""
            x = epochless(x)
            r = K(x.c)
            for t, k in x.t:
                v = atom(t)
                if t == Q:
                    v = atom('P')
                elif t[0] == 'ld':
                    a = tr(t[1])
                    if dict(a.t).get('P') == 1:
                        o = ladd(a, atom('P'), -1)
                        w = fields.get(o)
                        if w is None or w[0] < t[2] or w[1] is None:
                            v = atom(('unwritten', o, t[2]))
                        elif w[0] > t[2] and not (w[0] == 8 and t[2] == 4):
                            v = atom(('part', o, t[2]))
                        else:
                            v = w[1]
                r = ladd(r, lmul(v, k))
            return r
        self.ob('stream', f, lin(cr[3][0]) == rstate and lin(rc[3][0]) == cr[4], 'the tree is not read into a new one for the same number of states', rc[5])
        b = ladd(tr(lin(rc[3][1])), atom('P'), -1)
        self.ob('stream', f, b == tree[0], 'the tree is written at %s and read at %s' % (tree[0], b), rc[5])
        n = tr(lin(rc[3][2]))
        self.ob('stream', f, n == nodes, 'the tree is read for %s nodes and written for %s' % (n, nodes), rc[5])
        d = ladd(tr(lin(de[3][0])), atom('P'), -1)
        self.ob('stream', f, d == data, 'the codes are written at %s and read at %s' % (data, d), de[5])
        out = lin(de[3][3])
        al = {e[1]: e[2] for e in p.ev('alloc')}
        self.ob('stream', f, lin(de[3][1]) == rnum and lin(de[3][2]) == rc[4] and out in al and al[out] == lmul(rnum, 4) and lin(p.end[1]) == out,
                'the codes are not decoded, all of them, with the tree read, into the array returned', de[5])
        e = [e for e in p.ev('store') if e[1] == rpos]
        end = ladd(tr(lin(e[-1][3])), atom('P'), -1) if e else None
        self.ob('stream', f, end == wend, 'after reading, the cursor is at %s; after writing, at %s' % (end, wend), e[-1][4] if e else None)

    # ------------------------------------------------------------ bit maps
    def bitmap(self, fn, write):
        """eight entries to a byte, first entry in the highest bit, and the same number of bytes on both sides"""
        f = self.F(fn)
        tys = [a['ty'] for a in f['args']]
        if tys != (['ptr', 'i64', 'ptr'] if write else ['i64', 'ptr', 'i64']):
            raise Stop('parameters not recognised')
        top = [l['header'] for l in f['loops'] if l['parent'] < 0]
        err = None
        # short maps, as they are
        A = self.A(f)
        bad = 0
        for N in range(0 if write else 1, 10 if write else 18):
            B = [K(N), A[1], K((N + 7) // 8)]
            if write:
                B = [A[0], K(N), A[2]]
            for p in Machine(f, B, load=lambda a, size, M: self.entry(a, size, A[0]) if write else None, unroll={l['header'] for l in f['loops']}, limit=6000).paths(3000):
                if p.end[0] == 'ret' and bad < 4:
                    m, i = self.bit_case(f, p, None, A, K(N), N, 0, write)
                    self.ob('bit-map', f, m is None, m or '', i)
                    bad += m is not None
        if bad:
            return
        for h in top:
            phis = [i['id'] for b in f['blocks'] if b['id'] == h for i in b['ins'] if i['op'] == 'phi' and i['ty'] != 'ptr']
            for mask in range(1 << len(phis)):
                sc = {k: 8 if mask >> j & 1 else 1 for j, k in enumerate(phis)}
                try:
                    r = self.bit_run(f, h, sc, write)
                except Stop as e:
                    err = str(e)
                    continue
                for m, i in r:
                    self.ob('bit-map', f, m is None, m or '', i)
                self.c.unit(fn, cases=len(r))
                return
        raise Stop('loop over the bytes not recognised: %s' % err)

    def entry(self, a, size, base):
        """an entry of the map to write: 0 or 1"""
        d = ladd(a, base, -1)
        if size == 1 and dict(d.t).keys() <= {('J',), ('R',)}:
            return ((('e', d), 0),) + (0,) * 7
        return None

    def bit_run(self, f, h, sc, write):
        A0 = self.A(f)
        others = {l['header'] for l in f['loops']} - {h}
        J, Rr = ('J',), ('R',)

        def decide(b, p):
            if b[0] != 'c':
                return None
            d = ladd(lin(b[3]), lin(b[2]), -1)
            if any(t not in (J, Rr) for t, k in d.t):
                return None
            d = ladd(d, K(dict(d.t).get(J, 0)))         # J counts from 1
            if all(k > 0 for t, k in d.t) and d.c > 0:
                return 1 if b[1] == 'lt' else 0
            if all(k < 0 for t, k in d.t) and d.c <= 0:
                return 0 if b[1] == 'lt' or d.c < 0 else None
            return None

        def run(N, B, start):
            A = [A0[0], N, A0[2]] if write else [N, A0[1], B]
            arr = A0[0] if write else None

            def load(a, size, M):
                return self.entry(a, size, A0[0]) if write else None

            def header(b, ph, p):
                if b != h:
                    return None
                if start is None:
                    return {k: v for k, (i, v) in ph.items() if v is not None}
                return {k: Lin([(J, sc[k])], start * sc[k]) for k in ph if k in sc}
            return Machine(f, A, load=load, header=header, decide=decide, unroll=others, limit=6000).paths(3000)
        # the loop starts at 0
        for N in (1, 9, 17):
            for p in run(K(N), K((N + 7) // 8), None):
                for e in p.ev('arrive'):
                    if e[1] == h and any(const(e[2][k]) != 0 for k in sc):
                        raise Stop('start of the loop')
        res = []
        # steps of the roles
        cases = []
        for m in range(1, 9):
            for full in (0, 1, 2):
                if full and (write or full == 2) and m not in (1, 8):
                    continue
                N = Lin([(J, 8)] + ([(Rr, 8)] if full == 2 else []), 8 * full + m)
                B = Lin([(J, 1)] + ([(Rr, 1)] if full == 2 else []), full + 1)
                # is the state reached?
                prev = [p for p in run(N, B, -1) if p.end[0] == 'back' and p.end[1] == h]
                if not prev:
                    continue
                for p in prev:
                    for k in sc:
                        v = lin(p.end[2][k])
                        if v != Lin([(J, sc[k])]):
                            raise Stop('step of the loop')
                cases.append((N, B, 0, 8 * full + m if full < 2 else None, 1))
        if not any(c[4] for c in cases):
            raise Stop('loop not reached')
        for N, B, start, rest, gen in cases:
            for p in run(N, B, start):
                if p.end[0] in ('dead',):
                    continue
                if gen and not any(e[0] == 'arrive' and e[1] == h for e in p.events):
                    continue
                res.append(self.bit_case(f, p, h, A0, N, rest, gen, write))
        return res

    def bit_case(self, f, p, h, A0, N, rest, gen, write):
        J = ('J',)
        pos = A0[2] if write else A0[1]
        ar = [n for n, e in enumerate(p.events) if e[0] == 'arrive' and e[1] == h]
        ev = p.events[ar[0]:] if gen else p.events
        left = 'with %s entries left%s: ' % (rest if rest is not None else 'many', '' if gen else ' in all')
        count = 8 if p.end[0] == 'back' else rest
        if count is None:
            return (left + 'the loop ends', None)
        first = Lin([(J, 8)]) if gen else K(0)
        nbytes = (count + 7) // 8
        if p.end[0] == 'back' and rest is not None and rest < 8:
            return (left + 'a whole byte is taken', None)
        adv = [e for e in ev if e[0] == 'store' and e[1] == pos]
        rd = [e for e in ev if e[0] == 'load' and e[2] == 1 or e[0] == 'store' and e[2] == 1]
        # where the first byte goes
        cur = None
        ptr = [i['id'] for b in f['blocks'] if b['id'] == h for i in b['ins'] if i['op'] == 'phi' and i['ty'] == 'ptr']
        bytes_ = {}

        def byte(a):
            nonlocal cur
            for t, k in a.t:
                if k == 1 and len(a.t) == 1 and (t[0] == 'ld' and t[1] == pos or t[0] == 'phi' and t[1] in ptr):
                    cur = t
                    return a.c
            return None
        if write:
            got = {}
            for e in ev:
                if e[0] != 'store' or e[2] != 1:
                    continue
                o = byte(e[1])
                if o is None:
                    raise Stop('store of a byte not recognised')
                got[o] = (bits(e[3], 8) if e[3] is not None else (TOP,) * 8, e[4])
            if set(got) != set(range(nbytes)):
                return (left + 'bytes %s are written instead of %d' % (sorted(got), nbytes), None)
            for q in range(count):
                want = (('e', ladd(first, K(q))), 0)
                have = got[q // 8][0][7 - q % 8]
                if have != want and have != p.dec.get(want, '-'):
                    return (left + 'entry %d is not bit %d of byte %d' % (q, 7 - q % 8, q // 8), got[q // 8][1])
        else:
            al = p.ev('alloc')
            if not al and count:
                return (left + 'no array is returned', None)
            arr = al[0][1] if al else K(0)
            if al and al[0][2] != N:
                return (left + 'the array returned has %s entries instead of %s' % (al[0][2], N), None)
            got = {}
            for e in ev:
                if e[0] != 'store' or e[2] != 1:
                    continue
                d = ladd(e[1], arr, -1)
                d = ladd(d, first, -1)
                if d.t:
                    raise Stop('store of an entry not recognised')
                got[d.c] = (bits(e[3], 8) if e[3] is not None else (TOP,) * 8, e[4])
            if set(got) != set(range(count)):
                return (left + 'entries %s are restored instead of %d' % (sorted(got)[:20], count), None)
            for q in range(count):
                b = got[q][0]
                w = b[0]
                if not (isinstance(w, tuple) and w[0][0] == 'ld' and w[0][2] == 1 and byte(w[0][1]) == q // 8 and w[1] == 7 - q % 8) or any(b[1:]):
                    return (left + 'entry %d is not bit %d of byte %d' % (q, 7 - q % 8, q // 8), got[q][1])
            if p.end[0] == 'ret' and lin(p.end[1]) != arr:
                return (left + 'the array filled is not the one returned', None)
        # the cursor
        if cur is not None and cur[0] == 'phi' and p.end[0] == 'back':
            v = lin(p.end[2].get(cur[1]))
        elif adv:
            v = lin(adv[-1][3])
        else:
            v = None if nbytes else atom(cur) if cur else None
        if nbytes and (v is None or ladd(v, atom(cur), -1) != K(nbytes)):
            return (left + 'the cursor moves to %r, not by %d bytes' % (v, nbytes), adv[-1][4] if adv else None)
        g = ld(lin(adv[-1][3])) if adv and adv[-1][3] is not None else None
        if not nbytes and adv and not (g is not None and g[0] == pos and g[1] == 8):
            return (left + 'the cursor moves', adv[-1][4])
        return (None, None)

    # ------------------------------------------------------------ lossless
    def lossless(self):
        """the lossless coder gets the whole input and enough room, and gives back as many bytes as it was given"""
        f = self.F('sz_lossless_compress')
        A = self.A(f)
        if [a['ty'] for a in f['args']] != ['i32', 'i32', 'ptr', 'i64', 'ptr']:
            raise Stop('parameters not recognised')
        n = A[3]
        modes = []
        for p in Machine(f, A).paths():
            mode = [v for d, v in p.dec.items() if d[0] == 'c' and d[1] == 'eq' and lin(d[2]) == A[0]]
            c = [e for e in p.ev('call') if e[1] == 'ZSTD_compress']
            if not c:
                self.ob('lossless', f, 1 not in mode, 'nothing is compressed')
                continue
            c = c[0]
            modes += [d for d, v in p.dec.items() if v and d[0] == 'c' and lin(d[2]) == A[0]]
            a = c[3]
            al = {e[1]: e[2] for e in p.ev('alloc')}
            dst, cap = lin(a[0]), lin(a[1]) if a[1] is not None else None
            self.ob('lossless', f, lin(a[2]) == A[2] and lin(a[3]) == n, 'not all the bytes given are compressed: %r, %r' % (a[2], a[3]), c[5])
            if dst not in al or al[dst] is None:
                raise Stop('room for the result not recognised')
            self.ob('lossless', f, al[dst] == cap, 'the room said to be there is %s, but %s bytes are allocated' % (cap, al[dst]), c[5])
            out = [e for e in p.ev('store') if e[1] == A[4]]
            self.ob('lossless', f, len(out) == 1 and lin(out[0][3]) == dst and lin(p.end[1]) == c[4], 'the result and its length are not what is returned', c[5])
            # room for incompressible input: zstd adds at most 18 + 3 bytes per started block of 128 KiB
            lo, hi = 0, None
            for d, v in p.dec.items():
                if d[0] == 'c' and d[1] == 'lt' and lin(d[2]) == n and const(d[3]) is not None:
                    lo, hi = (lo, const(d[3]) - 1) if v else (const(d[3]), hi)
                elif d[0] == 'c' and d[1] == 'lt' and lin(d[3]) == n and const(d[2]) is not None:
                    lo, hi = (const(d[2]) + 1, hi) if v else (lo, const(d[2]))
            if cap is None:
                raise Stop('room for the result not recognised')
            need = lambda k: k + 18 + 3 * (k // 131072 + 1)
            low = need  # one-shot frames of small inputs have a header of at most 6 (256 bytes: 7) bytes
            small = lambda k: k + (6 if k < 256 else 14) + 3 * (k // 131072 + 1)
            k, slope, c0 = None, None, cap.c
            if not cap.t:
                ok = hi is not None and cap.c >= small(hi)
            elif len(cap.t) == 1 and cap.t[0][1] == 1 and cap.t[0][0][0] == 'scaled' and cap.t[0][0][2] == n:
                s = cap.t[0][0][1]
                ok = s >= 1 + 3 / 131072 and all(int(s * x) + cap.c >= small(x) for x in {lo, lo + 1, lo + 2, max(lo, 255), max(lo, 256), max(lo, 257), max(lo, 131072)})
            elif len(cap.t) == 1 and atom(cap.t[0][0]) == n:
                s = cap.t[0][1]
                ok = s >= 2 and all(s * x + cap.c >= small(x) for x in {lo, lo + 1, max(lo, 256)})
            elif any(t[0] == 'ret' for t, q in cap.t):
                ok = [e for e in p.ev('call') if e[1] == 'ZSTD_compressBound' and lin(e[3][0]) == n and e[4] is not None and dict(cap.t).get(e[4].t[0][0]) == 1 and cap.c >= 0] != []
            else:
                raise Stop('room for the result not recognised')
            self.ob('lossless', f, bool(ok), 'inputs of %s to %s bytes that do not shrink have no room: %s bytes' % (lo, 'any number of' if hi is None else hi, cap), c[5])
        f2 = self.F('sz_lossless_decompress')
        A = self.A(f2)
        if [a['ty'] for a in f2['args']] != ['i32', 'ptr', 'i64', 'ptr', 'i64']:
            raise Stop('parameters not recognised')
        rm = []
        for p in Machine(f2, A).paths():
            c = [e for e in p.ev('call') if e[1] == 'ZSTD_decompress']
            if not c:
                continue
            rm += [d for d, v in p.dec.items() if v and d[0] == 'c' and lin(d[2]) == A[0]]
            c = c[0]
            a = [lin(x) if x is not None else None for x in c[3]]
            al = {e[1]: e[2] for e in p.ev('alloc')}
            out = [e for e in p.ev('store') if e[1] == A[3]]
            self.ob('lossless', f2, a[2] == A[1] and a[3] == A[2], 'not all the bytes given are decompressed: %r, %r' % (a[2], a[3]), c[5])
            self.ob('lossless', f2, a[0] in al and al[a[0]] == A[4] and a[1] == A[4], 'there is not room for the original size: %s of %s bytes' % (a[1], al.get(a[0])), c[5])
            self.ob('lossless', f2, len(out) == 1 and lin(out[0][3]) == a[0], 'the bytes restored are not what is returned', c[5])
            self.ob('lossless', f2, lin(p.end[1]) in (A[4], c[4]), 'the size returned is %s' % lin(p.end[1]), c[5])
        if modes and rm:
            self.ob('lossless', f2, {const(d[3]) for d in modes} == {const(d[3]) for d in rm}, 'different coders are chosen for the same number')
        else:
            self.ob('lossless', f2, False, 'one direction does nothing')
        self.c.unit('lossless', functions=2)


class Cut:
    """the part of a path after a loop header up to its end or the next loop"""
    pass


def Path_cut(p, arrive):
    if arrive is None:
        return None
    n = [k for k, e in enumerate(p.events) if e is arrive][0]
    nxt = [e for e in p.events[n + 1:] if e[0] == 'arrive']
    q = Cut()
    ds = list(p.dec.items())
    stop = nxt[0][3] if nxt else len(ds)
    q.dec = dict(ds[arrive[3]:stop])
    q.events = p.events[n:]
    q.end = p.end if not nxt else ('ret', None)
    if p.end[0] == 'back' and p.end[1] != arrive[1]:
        q.end = ('ret', None)
    return q


def same_num(a, b):
    """a number and its extension to more bits"""
    if a == b:
        return True
    if a is None or len(a.t) != 1 or a.c or a.t[0][1] != 1 or a.t[0][0][0] != 'bv' or len(b.t) != 1 or b.c:
        return False
    v = a.t[0][0][1]
    return all(isinstance(x, tuple) and len(x) == 2 and x[1] == k and epochless(x[0]) == b.t[0][0] for k, x in enumerate(v)) and len(v) >= 8 * b.t[0][0][2]


def run(c, m):
    k = Coder(c, m)
    k.part('code words', k.build_code)
    k.part('encode', k.encode)
    k.part('decode', k.decode)
    k.part('nodes', k.nodes)
    k.part('createHuffmanTree', k.create)
    k.part('qinsert', lambda: k.queue('qinsert', True))
    k.part('qremove', lambda: k.queue('qremove', False))
    k.part('init', k.init_tree)
    k.part('tree arrays', k.pads)
    k.part('tree bytes', k.layout)
    k.part('stream', k.stream)
    k.part('bit map, written', lambda: k.bitmap('convertIntArray2ByteArray_fast_1b_to_result_sz', True))
    k.part('bit map, read', lambda: k.bitmap('convertByteArray2IntArray_fast_1b_sz', False))
    k.part('lossless', k.lossless)
