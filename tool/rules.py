import re
import mem
import effects
from pairs import *
from fn import Stop
from core import clean
from expr import show, E
RULES = {}


def rule(pid, explanation, floor=1, **kw):
    def deco(f):
        RULES[pid] = dict(fn=f, explanation=explanation, floor=floor, **kw)
        return f
    return deco


@rule('C01', 'The bytes each compressor writes are derived from its source as an ordered tape (offset, width, condition and producer of every field); the decompressor\'s header loads, array cursors and entropy-decoding calls are rewritten over that tape and must hit the start of a field of the same type, with the same element count, alphabet and condition.', floor=300)
def stream_layout(c, only=None):
    for w, r, T, wn, rn in instances(c.mod, only):
        key = '%s<%s>' % (w, T)
        p = None
        try:
            p = Pair(c.mod, wn, rn)
            for where, ok, msg in p.tape.contiguous():
                c.ob('contiguous', w + '/size' if 'reported size' in msg else w + '/contiguous', where, ok, msg)
            p.setup()
            p.match_calls()
            p.match_fields()
        except Bad as e:
            c.ob('position', w, e.where, False, e.msg)
            continue
        finally:
            for where, ok, msg in p.obl if p else ():
                c.ob('agree', w + '/agree', where, ok, msg)
        c.unit(key, reader=r, fields=len(p.tape.items), layout=[l[:160] for l in p.tape.layout()])


def lockstep(c, only, what):
    import final
    """one proof per codec instance: decompressor's stored value == compressor's working copy, cursor by cursor"""
    for w, r, T, wn, rn in instances(c.mod, only):
        key = '%s<%s>' % (w, T)
        try:
            p = Pair(c.mod, wn, rn)
            p.setup()
            p.match_calls()
            tries = []
            for res in p.lockstep():
                tries.append((res, dict(p.mufail), len(p.mumap)))
                if all(x[1] for x in res):
                    break
        except Bad as e:
            c.skip(w, 'where the sections of the stream lie is not established (C01 decides that): %s' % e.where)
            continue
        except Stop as e:
            c.skip(w, str(e))
            continue
        if not tries:
            c.skip(w, 'no pair of coding loops with the same shape found')
            continue
        res, muf, n = min(tries, key=lambda t: sum(not x[1] for x in t[0]))
        lists = {it.src.a[1] for it in p.tape.items if getattr(it, 'src', None) is not None and it.src.k == 'vecdata'}
        bulk = [i for b, i in p.bulk() if b is None or b in lists]
        if bulk and not all(x[1] for x in res):
            c.skip(w, '%s: elements of a list are not appended one by one' % p.W.where(bulk[0]))
            continue
        lost = [x for r in res if not r[1] for e in r[2:4] if isinstance(e, E) for x in final.all_terms(e) if x.k == 'ldm' and x.a[0].k == 'alloca']
        if lost:
            c.skip(w, 'a value passes through a local array: %s' % show(lost[0])[:200])
            continue
        for where, ok, rw, wv, P in res:
            c.ob('lockstep', w, where, ok, '' if ok else 'the decompressor stores\n  %s\nwhere the compressor keeps\n  %s' % (show(rw)[:1500], show(wv)[:1500]) +
                 ''.join('\ncursor %s: decompressor advances to %s, compressor to %s' % (show(k), show(v[1])[:500], show(v[2])[:500]) for k, v in muf.items()))
        for _ in range(n):
            c.ob('cursor', w, key, True, 'cursor moves in step')
        c.unit(key, reader=r, output_cells=len(res), cursors=n, attempts=len(tries))


@rule('C02', 'Per codec instance, the value the decompressor stores into every output cell (as a gated symbolic expression over stream symbols and earlier output cells) is compared, for all branch conditions at once, with the value the compressor keeps in its working copy of that cell after quantisation; stream cursors are matched by induction over the loops. In every decompressor, each element of a result is set, and set before it is read as a neighbour, followed in program order for a few grid sizes.', floor=12)
def lockstep_2d(c):
    lockstep(c, r'^sz_compress_cp_preserve_(2d_online(_abs|_log)?|2d_bilinear_online_log|3d_(online_abs|offline_log|online_log|unstructured))$', '2D and 3D')
    import effects
    ef = effects.Effects(c.mod)
    done = set()
    for w, r, T, wn, rn in instances(c.mod):
        if rn not in done:
            done.add(rn)
            set_before_read(c, c.mod.fn(rn), ef, r, only=True)


BLOCKS = r'^(sz_compress_2d|sz_compress_2d_with_eb|sz_compress_3d)$'


@rule('C12', 'Block-wise codecs: the decoder\'s loop nests (block rows, block columns, cells of a block, per prediction mode) are laid on the compressor\'s nests with the same trip counts and entry conditions; inside each pair of leaf loops the value the decoder stores into every output cell, and the value it keeps in its prediction buffer, are compared as gated symbolic expressions with what the compressor keeps for the same cell, every cursor (cell, buffer, code, verbatim value, indicator, coefficient) being proved to start at and advance by the same amount; whole-range operations on the prediction buffers (cleared, carried over to the next block row or layer) and the rebuilding of regression coefficients are compared operation by operation', floor=40)
def blockwise(c):
    from block import BlockPair, B
    for w, r, T, wn, rn in instances(c.mod, BLOCKS):
        key = '%s<%s>' % (w, T)
        try:
            p = BlockPair(c.mod, wn, rn)
            p.setup()
            p.match_calls()
            p.prepare()
            res = p.decide()
        except Bad as e:
            c.skip(w, 'where the sections of the stream lie is not established (C01 decides that): %s' % e.where)
            continue
        except Stop as e:
            c.skip(w, str(e))
            continue

        def sh(x):
            return show(x)[:1500] if isinstance(x, E) else '' if x is None else repr(x) if x in (0, 1) else B.show(x)[:1500]
        bad = [x for x in res if x[2] is False]
        und = [x for x in res if x[2] is None]
        if und and not bad:
            c.skip(w, '%s: %s' % (und[0][0], und[0][1]))
        for where, what, ok, rv, wv in res:
            if ok is None:
                continue
            c.ob('blockwise', w + '/' + ('buffer' if 'buffer' in what else 'coefficient' if 'oefficient' in what else 'cell'), where, ok,
                 '' if ok else '%s\n  %s\nagainst the compressor\'s\n  %s' % (what, sh(rv), sh(wv)) +
                 ''.join('\ncursor %s: decompressor advances to %s, compressor to %s' % (show(k)[:200], show(v[1])[:500], show(v[2])[:500]) for k, v in list(p.mufail.items())[:4]))
        c.unit(key, reader=r, loop_nests=['%d on %d' % x for x in p.pairs], obligations=len(res), cursors=len(p.mumap), attempts=p.tries)



def own_functions(c, only=None):
    """library functions (not the C++ library's) of the model"""
    for n, f in c.mod.fj.items():
        head = f['dem'].split('(')[0]
        if not f.get('blocks') or re.match(r'(\S+ )*?std::|__gnu|operator', head) or re.search(r'(^| )(std|__gnu_cxx)::', head):
            continue
        if only and not re.search(only, f['dem']):
            continue
        yield n, f['dem']


@rule('C03', 'Every allocation site of every library function is followed through pointer copies, helper results and conditional merges: on each path it must be released exactly once with the function that matches its allocator, or handed to the caller, and neither used nor returned afterwards; memory of callers, locals and interiors of blocks is never released.', floor=200)
def ownership(c):
    fresh = mem.returns_fresh(c.mod)
    for n, dem in own_functions(c):
        name = clean(dem).split('(')[0].split(' ')[-1]
        cnt = {}

        def emit(r, where, ok, msg):
            if ok is None:
                c.skip(name, msg)
                return
            cnt[r] = cnt.get(r, 0) + 1
            c.ob(r, name + '/' + r, where, ok, msg)
        try:
            mem.audit(c.mod, c.mod.fn(n), fresh, emit)
        except Stop as e:
            c.skip(name, str(e))
        if cnt:
            c.unit(dem.split('(')[0], **cnt)


def params(dem):
    """parameter types of a demangled signature"""
    m = re.search(r'(?:^|[^<]*?[ ~\w>])\((.*)\)[^)]*$', dem)
    s = m.group(1) if m else ''
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '<(['
        d -= ch in '>)]'
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


API = r'^([^(]* )?\*?sz3?_(de)?compress_\w+<(float|double)>\('


def undefined(v, seen):
    if v in seen:
        return False
    seen.add(v)
    if v.k == 'undef':
        return True
    if v.k == 'part':
        return any(undefined(x, seen) for x, g in v.a[0])
    for a in v.a:
        for b in (a if isinstance(a, tuple) else (a,)):
            if isinstance(b, E) and undefined(b, seen):
                return True
    return False


@rule('C04', 'Interprocedural effect summaries (points-to per allocation site) of every exported compressor and decompressor and everything it calls: memory written through an input parameter, writable globals written or read, environment-dependent library calls; no stored or returned value may depend on an uninitialised variable, and (for a few sizes, every store of the block taken in program order) no element of a temporary is read before it is set and no element of a result is left unset.', floor=150)
def purity(c):
    ef = effects.Effects(c.mod)
    written = set()
    for n, f in c.mod.fj.items():
        for b in f.get('blocks', ()):
            for i in b['ins']:
                if i['op'] == 'store' and i['ops'][1][0] == 'g':
                    written.add(i['ops'][1][1])
                if i['op'] in ('store', 'getelementptr') and i['ops'] and i['ops'][-1 if i['op'] == 'store' else 0][0] == 'g' and i['op'] == 'getelementptr':
                    pass
    for n, dem in own_functions(c):
        f = c.mod.fj[n]
        s = ef.of(n)
        ps = params(dem)
        name = dem.split('(')[0].split(' ')[-1]
        off = len(f['args']) - len(ps)
        api = re.search(API, dem)
        for k, a in enumerate(f['args']):
            if a['ty'] != 'ptr' or k < off:
                continue
            t = ps[k - off]
            const = re.search(r'const ?[*&]$', t)
            inp = const or api and re.search(r'[^*]\*$', t)
            for r, what in ((('arg', k), 'the data %s points to'), (('*', k), 'memory reached through %s')):
                if r[0] == '*' and not (const or api):
                    continue
                if r[0] == 'arg' and not inp:
                    continue
                c.ob('input', name + '/input/' + a['name'], s.writes.get(r, dem.split('(')[0]), r not in s.writes, 'writes ' + what % a['name'])
        if api:
            for g, w in s.globals.items():
                x = c.mod.globals.get(g, {})
                wr = ('g', g) in s.writes or any(('g', g) in ef.sum[q].writes for q in ef.sum)
                c.ob('state', name + '/state/' + x.get('dem', g), w, not wr, 'uses %s, a variable that keeps its value from one call to the next' % x.get('dem', g))
            for r, w in s.writes.items():
                if r[0] == 'g':
                    x = c.mod.globals.get(r[1], {})
                    const = x.get('const') == 'True' or x.get('dem', '').startswith(('vtable', 'std::'))
                    c.ob('state', name + '/state/' + x.get('dem', r[1]), w, const, 'writes the global %s' % x.get('dem', r[1]))
            for g, w in s.nondet.items():
                c.ob('environment', name + '/environment/' + g, w, False, 'calls %s: the result would depend on more than the arguments' % g)
            c.ob('environment', name + '/environment', dem.split('(')[0], True, 'no environment-dependent call in the call graph')
            c.ob('state', name + '/state', dem.split('(')[0], True, 'no state outside the call')
            for g, w in s.unknown.items():
                if 'ostream' not in w and 'ftk' not in g:
                    c.skip(name, 'unknown callee %s at %s' % (g, w))
            c.unit(dem.split('(')[0], writes=['%s %s' % (r[0], f['args'][r[1]]['name']) for r in s.writes if r[0] != 'g'])
        F = c.mod.fn(n)
        for b in F.order:
            for i in F.blk[b]['ins']:
                if i['op'] == 'store' or i['op'] == 'ret' and i['ops']:
                    try:
                        v = F.X(i['ops'][0])
                    except Stop as e:
                        continue
                    bad = undefined(v, set())
                    if bad or api:
                        c.ob('defined', name + '/defined', F.where(i), not bad, 'stores a value that depends on an uninitialised variable: ' + show(v)[:300] if bad else 'value fully defined')
        set_before_read(c, F, ef, name)


def set_before_read(c, F, ef, name, only=None):
    import init
    def emit(o, i, ok, msg):
        what = 'a result' if only else 'a block'
        if ok is None:
            c.skip(name, '%s allocated at %s: %s' % (what, F.where(F.ins[o.a[1]]), msg))
        else:
            c.ob('set', name + '/set', F.where(i), ok, msg)
    try:
        init.Blocks(c.mod, F, ef).check(emit, only)
    except (Stop, RecursionError, KeyError, TypeError, ValueError, OverflowError) as e:
        c.skip(name, 'initialisation: %s' % type(e).__name__)


@rule('C05', 'Every load, store and block copy whose address is a polynomial of loop counters, sizes and stepping cursors is proved to stay between the start and the end of its object (local array, temporary buffer, table, or input array of the documented size) under the loop limits and branch conditions on its path; where no proof is found the rule looks for sizes at which the access leaves the object and reports only those.', floor=400)
def memory_bounds(c):
    import bounds
    for n, dem in own_functions(c, SCOPE):
        name = clean(dem).split('(')[0].split(' ')[-1].lstrip('*')
        cnt, und = {}, {}
        F = c.mod.fn(n)
        bd = bounds.Bounds(c.mod, F, bounds.extents(c.mod.fj[n]))
        api = re.search(API, dem)     # a helper's arguments may be tied to each other by its callers: no counterexample from it

        def emit(i, ok, x):
            where = F.where(i)
            if ok:
                cnt['proved'] = cnt.get('proved', 0) + 1
                c.ob('bounds', name + '/bounds', where, True, 'inside %s' % show(x)[:60])
            elif ok is None:
                und[x[:60]] = und.get(x[:60], 0) + 1
            else:
                what, q, o, off, size, nb, g, fs = x
                w = bounds.Witness(bd, q, g, F.inner[i['b']]).search(4000) if q is not None and api else None
                if w:
                    c.ob('bounds', name + '/bounds', where, False, 'the access %s its object: %s bytes at offset %s of %s (%s bytes), for instance with %s' %
                         (what, show(nb)[:60], show(off)[:200], show(o)[:60], show(size)[:120], w))
                else:
                    und['no proof and no counterexample'] = und.get('no proof and no counterexample', 0) + 1
        try:
            bd.check(emit)
        except Stop as e:
            c.skip(name, str(e))
        if cnt or und:
            c.unit(dem.split('(')[0], undecided=und, **cnt)
        if und:
            c.skip(name, '%d accesses: %s' % (sum(und.values()), ', '.join('%s (%d)' % k for k in sorted(und.items(), key=lambda t: -t[1])[:3])))


SCOPE = r'(^|[ *])(sz3?_(de)?compress_\w+|Huffman_\w+|build_Huffman_tree|convert\w+|createHuffmanTree|encode_withTree|decode_withTree|reconstruct_HuffTree\w+|sz_lossless\w+|log_transform|encode_regression\w*|decode_regression\w*)(<|\()'


GATES = {   # compressor -> how the user's bound limits the values it keeps
    'sz_compress_2d': ('user',), 'sz_compress_3d': ('user',), 'sz_compress_2d_with_eb': ('cell',),
    'sz_compress_cp_preserve_2d_online': ('rel',), 'sz_compress_cp_preserve_2d_online_abs': ('user',),
    'sz_compress_cp_preserve_2d_online_abs_relax_FN': ('user',), 'sz3_compress_cp_preserve_2d_online_abs': ('user',),
    'sz_compress_cp_preserve_3d_online_abs': ('user',), 'sz_compress_cp_preserve_2d_online_log': ('log',),
    'sz_compress_cp_preserve_2d_bilinear_online_log': ('log',), 'sz_compress_cp_preserve_3d_offline_log': ('log',),
    'sz_compress_cp_preserve_3d_online_log': ('log',), 'sz_compress_cp_preserve_3d_unstructured': ('log',),
}
CALLS = {'sz_compress_cp_preserve_2d_offline': 'relof', 'sz_compress_cp_preserve_2d_offline_log': 'log'}


@rule('C06', 'For every value a compressor keeps in place of an original (all branches at once, after folding later stores of the same iteration), the condition under which it is kept must imply a comparison |reconstruction - original of that cell| < E, and E is traced through minima, quantisation, logarithms and bound arrays to the user\'s bound.', floor=40)
def error_gate(c):
    import gate
    for w, exp in GATES.items():
        for T in ('float', 'double'):
            for n in c.mod.find(r'\b%s<%s>\(' % (w, T))[:1]:
                k = gate.audit(c, c.mod.fn(n), w, exp, 'log' in exp)
                if 'cp_preserve' not in w:
                    c.unit('%s<%s> codes' % (w, T), codes=gate.coded(c, c.mod.fn(n), w, exp))
                c.unit('%s<%s>' % (w, T), kept_values=k)
                if not k:
                    c.skip(w, 'no quantised value found')
    for w, exp in CALLS.items():
        for T in ('float', 'double'):
            for n in c.mod.find(r'\b%s<%s>\(' % (w, T))[:1]:
                gate.calls(c, c.mod.fn(n), w, exp)


@rule('C07', 'For every pair that codes logarithms: the value stored into each output element is split into its gated alternatives (2^logarithm with a sign, zero, verbatim value) and each is compared with what the compressor put in for that element of that component (sign bit, logarithm, marker of a zero, verbatim value), for all values at once.', floor=200)
def log_values(c):
    import final
    for w, r, T, wn, rn in instances(c.mod, r'pwr|log|unstructured'):
        key = '%s<%s>' % (w, T)
        try:
            p = Pair(c.mod, wn, rn)
            p.setup()
            p.match_calls()
            n = final.Rule(p, c, w).run()
            c.unit(key, reader=r, cells=n)
        except Bad as e:
            c.skip(w, 'where the sections of the stream lie is not established (C01 decides that): %s' % e.where)
        except Stop as e:
            c.skip(w, str(e))


@rule('C08', 'Every store into an array that is handed to the entropy coder is given a range by interval arithmetic under its path condition (comparisons on the path, truncation, logarithms of the largest double); the range must lie in [0, alphabet of that call). In the block codecs no quantised code may fall on a marker (unpredictable, mean) of its kind of block. Every code that is encoded must have been set: cursors advance over written codes only, and counted arrays are written gaplessly up to the encoded count.', floor=150)
def code_ranges(c):
    import codes
    for n, dem in own_functions(c, r'(^|[ *])sz3?_compress\w+<'):
        W = c.mod.fn(n)
        if not W.calls(r'^Huffman_encode_tree_and_data'):
            continue
        name = dem.split('<')[0].split(' ')[-1].lstrip('*')
        try:
            k = codes.audit(c, W, name, 'cp_preserve' not in name)
            f = codes.fill(c, W, name)
            c.unit(dem.split('(')[0], codes=k, filled=f)
        except Stop as e:
            c.skip(name, str(e))


class Mute:
    """takes what another rule reports"""
    def ob(self, *a):
        pass

    skip = unit = ob


@rule('C09', 'The bound each vertex is coded with is a gated minimum in the source\'s symbolic form; for each vertex of a few grids (every border case) the places of the values each of its leaves is derived from are evaluated, and under the conditions of that vertex every grid cell that contains it (triangles and tetrahedra of the diagonal subdivision, or quadrilaterals) must be among the leaves, unless the bound is 0. Leaves must take every component at the same vertices, the vertex itself last, from copies that hold what is already coded. Every comparison that keeps a value uses such a bound. Where cells that hold a critical point are marked, each mark is computed from the vertices of one cell and keeps its vertices verbatim.', floor=150)
def cell_cover(c):
    import cover
    import effects
    import gate
    ef = effects.Effects(c.mod)
    for n, dem in own_functions(c, r'(^|[ *])sz3?_compress_cp_preserve_\w+<'):
        F = c.mod.fn(n)
        name = dem.split('<')[0].split(' ')[-1].lstrip('*')
        C = cover.Cover(c.mod, F, ef)
        list(F.stores())

        def say(rule_, tail):
            def emit(i, ok, msg):
                if ok is None:
                    c.skip(name, '%s: %s' % (F.where(i), msg))
                else:
                    c.ob(rule_, name + '/' + tail, F.where(i), ok, msg)
            return emit
        try:
            C.exist(say('exist', 'exist'))
        except (Stop, RecursionError, KeyError, TypeError, OverflowError) as e:
            c.skip(name, 'marks of critical points: %s %s' % (type(e).__name__, e))
        if not F.calls(r'derive_cp|max_eb_to_keep_position_and_type'):
            continue
        try:
            kept = []
            if name in GATES:
                gate.audit(Mute(), F, name, GATES[name], 'log' in GATES[name], lambda s, e, g: kept.append((s, e, g)))
            arrays = C.derived(say('vertex', 'vertex'))
            C.check(say('cells', 'cells'), [(s, e) for s, e, g in kept])
            C.fresh(say('fresh', 'fresh'))
            for s, e, g in kept:
                say('rests', 'rests')(s, C.rests(e, g, arrays), 'kept within a bound that does not come from the cells around its vertex: ' + show(e)[:300])
            for i in F.calls(r'\bsz_compress_2d_with_eb<') if name in CALLS else ():
                a = F.base(F.X(i['ops'][1]))
                say('rests', 'rests')(i, None if a is None or a.k != 'mem' else a in arrays, 'the bounds handed to sz_compress_2d_with_eb do not come from the cells around the vertices')
            c.unit(dem.split('(')[0], bounds=len(C.sinks()), kept=len(kept), placed=getattr(C, 'placed', 0))
        except (Stop, RecursionError, KeyError, TypeError, OverflowError) as e:
            c.skip(name, '%s %s' % (type(e).__name__, e))


@rule('C10', 'The term each bound function returns is taken apart: every fraction |N| / (|D1| + .. + |Dk|) must have for D\'s exactly the terms in which the polynomial N moves when the coded values move (polynomial identity over the cell\'s values), and in every case of its conditions (BDD) the value must be at most the fractions of a certificate: one barycentric coordinate stays outside [0, 1], or all of them keep their signs (and discriminant and trace theirs where the kind is kept), or one component keeps its sign at all vertices.', floor=60)
def certificates(c):
    import algebra
    for n, dem in own_functions(c, r'(^|[ *])(derive_cp_eb_for_positions_\w+|max_eb_to_keep_position_and_type\w*)<'):
        r = algebra.audit(c, c.mod, n)
        if r:
            c.unit(dem.split('(')[0], polynomials=r[1], conditions=r[2])


@rule('C11', 'Each function of the entropy coder is interpreted over affine terms and bit vectors whose bits name their origin, loops cut at their headers, every combination of branches: code words file the path from the root bit by bit (depths 0 to 64); the encoder appends each word, first bit first, for each number of bits left in a byte and each length; the decoder takes each bit once and puts out a symbol at each leaf; queue moves neither lose nor repeat a node; the arrays of the tree, their byte layout per number of nodes and the fields of the stream are read where they are written; bit maps and the zstd wrapper likewise.', floor=30, anchors='anchors_coder.txt')
def entropy_coder(c):
    import coder
    coder.run(c, c.mod)
