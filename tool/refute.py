"""Two closed forms over sizes and loop variables that are not the same function: a point where they differ.

Used only to tell "another way to write the same trip count" (left undecided) from "another trip count" (a violation)."""
from expr import *


class Unknown(Exception):
    pass


def value(e, env):
    if e in env:
        return env[e]
    k = e.k
    if k == 'poly':
        s = Fraction(0)
        for m, c in e.a[0]:
            for x in m:
                c = c * value(x, env)
            s += c
        return s
    if k == 'part':
        v = [value(x, env) for x, g in e.a[0] if holds(g, env)]
        if not v:
            raise Unknown(k)
        return min(v) if e.a[1] == 'min' else v[0]
    if k in ('udiv', 'sdiv', 'urem', 'srem'):
        a, b = (value(x, env) for x in e.a)
        if a.denominator != 1 or b.denominator != 1 or a < 0 or b <= 0:
            raise Unknown(k)
        return Fraction(a // b if k[1:] == 'div' else a % b)
    if k == 'mn0':
        return min(value(e.a[0], env), 0)
    if k == 'max':
        return max(value(x, env) for x in e.a[0])
    if k == 'b2i':
        return Fraction(int(holds(e.a[0], env)))
    raise Unknown(k)


def holds(g, env):
    while g > 1:
        v, lo, hi = B.nodes[g]
        a = B.atoms[v]
        if a.k not in ('lt0', 'eq0'):
            raise Unknown(a.k)
        x = value(a.a[0], env)
        g = hi if (x < 0 if a.k == 'lt0' else x == 0) else lo
    return g == 1


def differ(F, t, u, tries=400):
    """a valid choice of sizes and iterations of F for which t and u differ, or None"""
    atoms = []

    def collect(e):
        for x in walk(e, conds=True):
            if x.k in ('arg', 'iv') and x not in atoms:
                atoms.append(x)
                if x.k == 'iv':
                    if x.a[0] != F.name:
                        raise Unknown('iv')
                    collect(F.trip(x.a[1]))
    try:
        collect(t)
        collect(u)
        args = [x for x in atoms if x.k == 'arg']
        ivs = sorted((x for x in atoms if x.k == 'iv'), key=lambda x: F.loops[x.a[1]].depth)
        s = 12345
        for n in range(tries):
            env = {}
            for x in args:
                s = (s * 1103515245 + 12345) % 2 ** 31
                env[x] = Fraction(2 + (s >> 8) % (7 if n % 2 else 20))
            for x in ivs:
                s = (s * 1103515245 + 12345) % 2 ** 31
                m = value(F.trip(x.a[1]), env)
                if m <= 0:
                    break
                env[x] = Fraction((s >> 8) % int(m)) if n % 3 else Fraction(int(m) - 1)
            else:
                a, b = value(t, env), value(u, env)
                if a != b and a >= 0 and b >= 0:
                    return env, a, b
    except Unknown:
        return None
    return None
