"""Heap ownership: who allocates, who frees, under which path conditions."""
import re
from expr import *
from fn import Stop
from pair import theory_of

KIND = {'malloc': 'malloc', 'calloc': 'malloc', 'realloc': 'malloc', '_Znwm': 'new', '_Znam': 'new[]'}
REL = {'free': 'malloc', '_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]'}


class Mem:
    """allocations, releases and escapes of one function"""

    def __init__(self, mod, F, fresh):
        self.F = F
        self.allocs, self.rel, self.esc = {}, [], []
        for b in F.order:
            for i in F.blk[b]['ins']:
                if i['op'] in ('call', 'invoke'):
                    n = i.get('callee') or ''
                    if n in KIND:
                        self.allocs[mk('mem', F.name, i['id'])] = (i, KIND[n])
                    elif n in fresh:
                        self.allocs[mk('callv', F.name, i['id'])] = (i, fresh[n])
                    elif n in REL:
                        self.rel.append((i, F.X(i['ops'][0]), REL[n]))
                elif i['op'] == 'ret' and i['ops'] and F.j.get('ret') != 'void':
                    if F.opty(i['ops'][0]) == 'ptr':
                        self.esc.append((i, F.X(i['ops'][0]), 'returned'))
                elif i['op'] == 'store' and F.opty(i['ops'][0]) == 'ptr':
                    a = F.X(i['ops'][1])
                    bs = F.base(a)
                    if bs is None or bs.k != 'alloca':
                        self.esc.append((i, F.X(i['ops'][0]), 'stored'))

    def kept(self, st, A):
        """the store puts the pointer into a block of this function that does not leave it"""
        F = self.F
        S = F.base(F.X(st['ops'][1]))
        if S not in self.allocs:
            return False
        if S is A:
            return True
        for r, x, what in self.esc:
            if any(F.base(v) is S for v, g in parts(x)) and (what == 'returned' or r is not st and F.base(F.X(r['ops'][1])) not in self.allocs):
                return False
        return True


def returns_fresh(mod):
    """functions whose result is always memory they allocate themselves: name -> kind"""
    fresh = {}
    ch = True
    while ch:
        ch = False
        for n, j in mod.fj.items():
            if n in fresh or not j.get('blocks') or not re.search(r'\*|node', j['dem'].split('(')[0] + '*'):
                continue
            if j['dem'].startswith('std::') or 'std::__' in j['dem'].split('(')[0]:
                continue
            if not any(i['op'] in ('call', 'invoke') and (i.get('callee') in KIND or i.get('callee') in fresh) for b in j['blocks'] for i in b['ins']):
                continue
            rets = [i for b in j['blocks'] for i in b['ins'] if i['op'] == 'ret' and i['ops']]
            if not rets:
                continue
            F = mod.fn(n)
            kinds = set()
            for i in rets:
                if F.opty(i['ops'][0]) != 'ptr':
                    kinds.add(None)
                    continue
                for v, g in parts(F.X(i['ops'][0])):
                    if v.k == 'mem' and v.a[0] == n:
                        kinds.add(KIND[F.ins[v.a[1]]['callee']])
                    elif v.k == 'callv' and v.a[0] == n and F.ins[v.a[1]].get('callee') in fresh:
                        kinds.add(fresh[F.ins[v.a[1]]['callee']])
                    elif intval(v) != 0:
                        kinds.add(None)
            kinds.discard('null')
            if len(kinds) == 1 and None not in kinds:
                fresh[n] = kinds.pop()
                ch = True
    return fresh


def touches(F, A):
    """instructions that use the object A: loads, stores and calls"""
    out = []
    for b in F.order:
        for i in F.blk[b]['ins']:
            if i['op'] == 'load':
                ps = [i['ops'][0]]
            elif i['op'] == 'store':
                ps = [i['ops'][1]]
            elif i['op'] in ('call', 'invoke') and not (i.get('callee') or '').startswith(('llvm.lifetime', 'llvm.dbg')):
                ps = [o for o in i['ops'] if F.opty(o) == 'ptr']
            else:
                continue
            for o in ps:
                x = F.X(o)
                for v, g in parts(x):
                    if g and F.base(v) is A:
                        out.append((i, g))
    return out


def common(F, a, b):
    """innermost loop containing both blocks"""
    L = F.inner[a]
    while L >= 0 and b not in F.loops[L].blocks:
        L = F.loops[L].parent
    return L


def guard_at(F, b, L):
    """condition, seen from one iteration of region L, of reaching block b (which may sit in a deeper loop: then 'at least once')"""
    k = F.child_of(b, L)
    if k is None:
        return F.pc(b, L)
    Lk = F.loops[k]
    g = 0
    for q in Lk.entries:
        g = B.Or(g, F.edge(q, Lk.header, L))
    return g


def audit(mod, F, fresh, emit):
    """emit(rule, where, ok, msg)"""
    M = Mem(mod, F, fresh)
    for A, (i, kind) in M.allocs.items():
        La = F.inner[i['b']]
        ga = F.pc(i['b'], La)
        frees = []
        for r, x, k in M.rel:
            for v, g in parts(x):
                if v is A:
                    frees.append((r, g, k))
                elif F.base(v) is A and g:
                    emit('interior', F.where(r), False, 'releases %s, a pointer into the middle of the block allocated at %s' % (show(v), F.where(i)))
        esc = []
        for r, x, what in M.esc:
            for v, g in parts(x):
                if F.base(v) is A and not (what == 'stored' and M.kept(r, A)):
                    esc.append((r, g, what))
        name = 'block allocated at %s' % F.where(i)
        # --- released or handed over on every path
        cover, decided = 0, True
        for r, g, k in frees + [(r, g, None) for r, g, what in esc]:
            if F.inner[r['b']] == La:
                cover = B.Or(cover, B.And(F.pc(r['b'], La), g))
            else:
                L = common(F, r['b'], i['b'])
                if L == La:
                    cover = B.Or(cover, B.And(guard_at(F, r['b'], La), g) if False else 0)
                    decided = False
                else:
                    # allocated inside a loop, handed over after it
                    cover = 1 if r['op'] == 'ret' or k is None else cover
                    if k is not None:
                        decided = False
        P = theory_of(ga, cover)
        ok = B.implies(B.And(ga, P), cover)
        if ok or decided:
            emit('released', F.where(i), ok, 'released or handed over on every path' if ok else
                 'the %s is neither released nor handed to the caller %s' % (name, 'on any path' if cover == 0 else 'when ' + B.show(B.And(ga, B.Not(cover)), 3)))
        else:
            emit('released', F.where(i), None, 'release and allocation are in different loops')
        for r, g, k in frees:
            emit('matching', F.where(r), k == kind, '%s released with the function for %s' % (name, k))
        # --- once
        for a in range(len(frees)):
            for b in range(a + 1, len(frees)):
                (r1, g1, _), (r2, g2, _) = frees[a], frees[b]
                L = common(F, r1['b'], r2['b'])
                both = B.And(guard_at(F, r1['b'], L), guard_at(F, r2['b'], L), g1, g2)
                if both:
                    both = B.And(both, theory_of(both))
                emit('once', F.where(r2), both == 0, 'the %s is released at %s and again here' % (name, F.where(r1)))
        for r, g, k in frees:
            Lr = F.inner[r['b']]
            if Lr != La and Lr >= 0 and i['b'] not in F.loops[Lr].blocks:
                emit('once', F.where(r), False, 'the %s, allocated outside this loop, is released in each of its iterations' % name)
        # --- not used afterwards
        for r, g, k in frees:
            for u, h in touches(F, A):
                if u is r or u['op'] in ('call', 'invoke') and u.get('callee') in REL:
                    continue
                if F.key(u) < F.key(r):
                    continue
                L = common(F, r['b'], u['b'])
                if F.inner[i['b']] != La:
                    continue
                both = B.And(guard_at(F, r['b'], L), guard_at(F, u['b'], L), g, h)
                if both:
                    both = B.And(both, theory_of(both))
                if both:
                    emit('after', F.where(u), False, 'uses the %s after its release at %s' % (name, F.where(r)))
            for r2, h, what in esc:
                if r2['op'] == 'ret' or what == 'stored':
                    L = common(F, r['b'], r2['b'])
                    both = B.And(guard_at(F, r['b'], L), guard_at(F, r2['b'], L), g, h)
                    if both:
                        both = B.And(both, theory_of(both))
                    if both and (r2['op'] == 'ret' or what == 'stored' and F.key(r2) > F.key(r)):
                        emit('after', F.where(r2), False, 'hands the caller the %s, released at %s' % (name, F.where(r)))
            emit('after', F.where(r), True, 'no use after release')
    for r, x, k in M.rel:
        for v, g in parts(x):
            b = F.base(v)
            if b is not None and b.k == 'arg' and not re.search(r'Release|free', F.short):
                emit('owner', F.where(r), False, 'releases memory that belongs to the caller (%s)' % show(b))
            elif b is not None and b.k == 'g':
                emit('owner', F.where(r), False, 'releases a global object')
            elif b is not None and b.k == 'alloca':
                emit('owner', F.where(r), False, 'releases a local variable')
