"""Builds the analysed model of /repo's current sources: every library source to unoptimised bitcode, linked and canonicalised by irx."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CPSZ_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class Broken(Exception):
    """the sources cannot be analysed (they do not compile, or the machinery is missing)"""


def irx():
    """path of the extractor, built when missing or older than its source"""
    src, out = os.path.join(HERE, 'irx.cpp'), os.path.join(BUILD, 'irx')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
    if r.returncode:
        raise Broken('irx does not build:\n' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))


FLAGS = ['-std=gnu++11', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-exceptions', '-fno-math-errno',
         '-fno-discard-value-names', '-g', '-w', '-include', 'cassert', '-include', 'cstdint']


def build(raw=False, keep=None, anchors='anchors.txt'):
    """returns the path of the JSON model; the caller removes its directory"""
    x = irx()
    d = tempfile.mkdtemp(prefix='cpsz_model_')

    def one(s):
        o = os.path.join(d, os.path.basename(s) + '.bc')
        r = subprocess.run(['clang++'] + FLAGS + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'stubs'), '-c', '-emit-llvm', s, '-o', o], capture_output=True, text=True)
        return s, o, r
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, sources()))
        for s, o, r in res:
            if r.returncode:
                raise Broken('%s does not compile:\n%s' % (s, r.stderr[-2000:]))
        if not res:
            raise Broken('no sources in %s/src' % REPO)
        out = os.path.join(d, 'x.json')
        cmd = [x, '-o', out, '-anchors', os.path.join(HERE, anchors)] + (['-raw'] if raw else [])
        if keep:
            cmd += ['-ll', keep]
        r = subprocess.run(cmd + [o for _, o, _ in res], capture_output=True, text=True)
        if r.returncode:
            raise Broken('irx failed:\n' + r.stderr[-2000:])
        return out
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise


def load(raw=False, anchors='anchors.txt'):
    from fn import Module
    p = build(raw, None, anchors)
    try:
        return Module(p)
    finally:
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)


if __name__ == '__main__':
    if '--setup' in sys.argv:
        print(irx())
        sys.exit(0)
    p = build('-raw' in sys.argv)
    shutil.copy(p, sys.argv[1])
    shutil.rmtree(os.path.dirname(p))
