"""What every check shares: obligations, known findings, the evidence file and the exit code."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import model                # noqa: E402
from fn import Stop         # noqa: E402


def clean(s):
    return re.sub(r'_Z[0-9A-Za-z_]*(, )?', '', str(s))


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.obl = []            # (rule, key, where, ok, msg)
        self.units = {}          # function -> what was analysed in it
        self.undecided = []      # (key, reason)
        self.samples = []
        self.notes = []
        self.mod = None

    def ob(self, rule, key, where, ok, msg=''):
        self.obl.append((rule, key, clean(where), bool(ok), clean(msg)))
        return ok

    def unit(self, name, **kw):
        self.units.setdefault(clean(name), {}).update(kw)

    def skip(self, key, reason):
        self.undecided.append((key, clean(reason)))

    def fns(self, rx):
        return self.mod.find(rx)


def known(pid):
    """finding keys that do not raise an alarm: 'known: property=C01 key=<key> :: text'"""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)', l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run(pid, rule, explanation, level='other', floor=1, raw=False, assumptions=(), anchors='anchors.txt'):
    t0 = time.time()
    c = Check(pid)
    rc, broken = 0, None
    try:
        c.mod = model.load(raw, anchors)
        rule(c)
    except (model.Broken, Stop) as e:
        broken = str(e)
    except Exception:
        broken = traceback.format_exc()
    kn = known(pid)
    bad, seen = {}, set()
    for r, key, where, ok, msg in c.obl:
        if ok:
            continue
        if key in kn:
            if key not in seen:
                seen.add(key)
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[key]))
            continue
        bad.setdefault((r, key, where), msg)
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    good = [o for o in c.obl if o[3]]
    cov = {'explanation': explanation, 'obligations': len(c.obl), 'discharged': len(good),
           'rules': {}, 'units': c.units, 'samples': (c.samples or ['%s: %s [%s]' % (o[2], o[4] or 'holds', o[0]) for o in good])[:6], 'undecided': ['%s: %s' % u for u in c.undecided][:40],
           'known_findings': sorted(seen), 'notes': c.notes}
    for o in c.obl:
        d = cov['rules'].setdefault(o[0], [0, 0])
        d[0] += 1
        d[1] += o[3]
    for k, r in c.undecided:
        print('UNDECIDED %s: %s' % (k, r[:300]))
    n = 0
    for (r, key, where), msg in bad.items():
        n += 1
        p = os.path.join(ev, 'replay', '%s-%d.txt' % (pid, n))
        with open(p, 'w') as f:
            f.write('property %s\nrule %s\nkey %s\nat %s\n\n%s\n' % (pid, r, key, where, msg))
        print('%s [%s]\n    %s' % (where, r, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    if broken:
        print('CHECK-BROKEN %s: %s' % (pid, broken[-3000:]))
        rc = 2
    elif len(c.obl) < floor and not bad:
        print('CHECK-BROKEN %s: only %d obligations found, at least %d expected' % (pid, len(c.obl), floor))
        rc = 2
    if bad:
        rc = 1
    e = {'property': pid, 'tier': c.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
         'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': n}
    json.dump(e, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d violations, %d undecided, %.1f s' % (pid, len(c.obl), len(good), n, len(c.undecided), time.time() - t0))
    return rc
