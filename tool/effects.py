"""What a function may write, keep and depend on: interprocedural points-to (per allocation site) and effect summaries."""
import re
from mem import KIND, REL

NONDET = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'rand_r', 'time', 'clock', 'clock_gettime', 'gettimeofday', 'times', 'getrusage',
          'getenv', 'secure_getenv', 'getpid', 'gettid', 'pthread_self', 'getrandom', 'getentropy', 'localtime', 'gmtime', 'sysconf', 'getcwd', 'gethostname',
          'fopen', 'open', 'read', 'fread', 'fgets', 'scanf', 'fscanf', 'getc', 'getchar', 'system', 'popen', 'fork', 'execve', 'unlink', 'remove', 'rename',
          'fwrite', 'fputs', 'fputc', 'fprintf', 'sched_getcpu', 'get_nprocs'}
NONDET_RX = re.compile(r'random_device|chrono::|std::(basic_)?[io]?fstream|filesystem|this_thread|hardware_concurrency|std::thread|mt19937')
# externals with a known effect: arguments written
WRITES = {'llvm.memcpy.p0.p0.i64': (0,), 'llvm.memmove.p0.p0.i64': (0,), 'llvm.memset.p0.i64': (0,), 'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'snprintf': (0,), 'sprintf': (0,),
          'ZSTD_compress': (0,), 'ZSTD_decompress': (0,), 'modf': (1,), 'frexp': (1,), 'qsort': (0,)}
QUIET = re.compile(r'^(llvm\.|printf$|puts$|putchar$|exit$|abort$|clog$|cexp$|csqrt$|cpow$|c?(sqrt|pow|exp|log|log2|log10|exp2|cbrt|floor|ceil|round|trunc|fabs|sin|cos|tan|acos|asin|atan|atan2|hypot|fmod)[fl]?$|strlen$|__assert_fail$|ZSTD_\w+$|_ZSt\d+__throw|_ZSt16__ostream_insert|_ZNSo|_ZNKSt5ctype|_ZNKSt8__detail20_Prime_rehash_policy|memcmp$|lround$|llround$|__cxa_|_ZSt9terminatev|_ZSt17current_exceptionv|isnan|isinf|abs$)')


class Summary:
    def __init__(self):
        self.writes = {}     # root -> where
        self.rets = set()
        self.keeps = {}      # root -> set of roots stored into it
        self.globals = {}    # mutable global read or written -> where
        self.nondet = {}     # callee -> where
        self.unknown = {}    # callee -> where


class Effects:
    def __init__(self, mod):
        self.mod = mod
        self.sum = {}
        self.ongoing = set()

    def of(self, name):
        if name in self.sum:
            return self.sum[name]
        s = self.sum[name] = Summary()      # recursion sees the summary so far
        self.ongoing.add(name)
        for _ in range(4):
            n = self.size(s)
            self.analyse(name, s)
            if self.size(s) == n:
                break
        self.ongoing.discard(name)
        return s

    @staticmethod
    def size(s):
        return (len(s.writes), len(s.rets), sum(len(v) for v in s.keeps.values()), len(s.globals))

    def where(self, j, i):
        return '%s:%s' % (j['dem'].split('(')[0], i.get('dbg', '?'))

    def analyse(self, name, s):
        j = self.mod.fj[name]
        ins = {}
        argidx = {}
        for n, a in enumerate(j['args']):
            argidx[a['id']] = n
        R = {a['id']: {('arg', n)} for n, a in enumerate(j['args']) if a['ty'] == 'ptr'}
        body = [i for b in j.get('blocks', ()) for i in b['ins']]
        for i in body:
            ins[i['id']] = i
        content = {}

        def gmut(g):
            x = self.mod.globals.get(g)
            return x is not None and x.get('const') != 'True' and not re.match(r'std::|vtable|__cxx', x.get('dem', ''))

        def roots(o):
            if o[0] == 'v':
                return R.get(o[1], set())
            if o[0] == 'g':
                return {('g', o[1])}
            if o[0] in ('c', 'e'):
                m = re.findall(r"@?(_Z[\w.]+|\.str[\w.]*)", str(o))
                return {('g', x) for x in m}
            return set()

        def cont(rs):
            out = set()
            for r in rs:
                if r in content:
                    out |= content[r]
                elif r[0] == 'arg':
                    out.add(('*', r[1]))
                elif r[0] in ('*', 'g'):
                    out.add(r)
            return out

        def write(rs, i):
            for r in rs:
                if r[0] != 'L':
                    s.writes.setdefault(r, self.where(j, i))

        def put(rs, vs, i):
            ch = False
            for r in rs:
                c = content.setdefault(r, set())
                if not vs <= c:
                    c |= vs
                    ch = True
                if r[0] != 'L':
                    s.keeps.setdefault(r, set()).update(('L', 0) if v[0] == 'L' else v for v in vs)
            return ch

        def add(d, rs):
            c = R.setdefault(d, set())
            if rs <= c:
                return False
            c |= rs
            return True
        ch, rounds = True, 0
        while ch and rounds < 30:
            ch = False
            rounds += 1
            for i in body:
                op = i['op']
                if op == 'alloca':
                    ch |= add(i['id'], {('L', i['id'])})
                elif op in ('getelementptr', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast', 'extractvalue'):
                    ch |= add(i['id'], roots(i['ops'][0]))
                elif op in ('add', 'sub', 'insertvalue') and i['ty'] != 'i32':
                    ch |= add(i['id'], set().union(*[roots(o) for o in i['ops']]))
                elif op == 'phi':
                    for _, o in i['in']:
                        ch |= add(i['id'], roots(o))
                elif op == 'select':
                    ch |= add(i['id'], roots(i['ops'][1]) | roots(i['ops'][2]))
                elif op == 'load':
                    rs = roots(i['ops'][0])
                    for r in rs:
                        if r[0] == 'g' and gmut(r[1]):
                            s.globals.setdefault(r[1], self.where(j, i))
                    if i['ty'] == 'ptr':
                        ch |= add(i['id'], cont(rs))
                elif op == 'store':
                    rs = roots(i['ops'][1])
                    write(rs, i)
                    for r in rs:
                        if r[0] == 'g':
                            s.globals.setdefault(r[1], self.where(j, i))
                    v = roots(i['ops'][0])
                    if v:
                        ch |= put(rs, v, i)
                elif op == 'ret':
                    for o in i['ops']:
                        for r in roots(o):
                            r = ('L', 0) if r[0] == 'L' else r
                            s.rets.add(r)
                elif op in ('call', 'invoke'):
                    ch |= self.call(j, s, i, roots, cont, write, put, add)

    def call(self, j, s, i, roots, cont, write, put, add):
        n = i.get('callee')
        w = self.where(j, i)
        ch = False
        if n in KIND:
            return add(i['id'], {('L', i['id'])})
        if n in REL:
            return False
        if n is None:
            s.unknown.setdefault('indirect call', w)
            return False
        f = self.mod.fj.get(n)
        if n in WRITES:
            for k in WRITES[n]:
                write(roots(i['ops'][k]), i)
            if n.startswith(('llvm.mem', 'mem')) and 'set' not in n:
                v = cont(roots(i['ops'][1]))
                d = roots(i['ops'][0])
                if v and any(r[0] == 'L' for r in d):
                    # a byte copy moves pointers only between local objects that hold pointers
                    v = {x for x in v if x[0] == 'L'}
                    if v:
                        ch |= put({r for r in d if r[0] == 'L'}, v, i)
            return ch
        dem = f['dem'] if f else i.get('dem', n)
        if n in NONDET or NONDET_RX.search(dem.split('(')[0]):
            s.nondet.setdefault(n, w)
            return False
        if not f or not f.get('blocks'):
            if not QUIET.match(n):
                s.unknown.setdefault(n, w)
            return False
        t = self.of(n)
        args = [roots(o) for o in i['ops']]

        def tr(r):
            if r[0] == 'arg':
                return args[r[1]] if r[1] < len(args) else set()
            if r[0] == '*':
                return cont(args[r[1]]) if r[1] < len(args) else set()
            if r[0] == 'L':
                return {('L', i['id'])}
            return {r}
        for r, x in list(t.writes.items()):
            for q in tr(r):
                if q[0] != 'L':
                    s.writes.setdefault(q, x + ' < ' + w)
        for r, vs in list(t.keeps.items()):
            v = set().union(*[tr(x) for x in vs]) if vs else set()
            ch |= put(tr(r), v, i)
        for g, x in list(t.globals.items()):
            s.globals.setdefault(g, x + ' < ' + w)
        for g, x in list(t.nondet.items()):
            s.nondet.setdefault(g, x + ' < ' + w)
        for g, x in list(t.unknown.items()):
            s.unknown.setdefault(g, x + ' < ' + w)
        rs = set()
        for r in list(t.rets):
            rs |= tr(r)
        if rs:
            ch |= add(i['id'], rs)
        return ch
