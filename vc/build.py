"""Mechanical extraction: /repo C++ -> LLVM IR, on every run."""
import os, threading, subprocess, hashlib, re, tempfile, atexit, shutil
from . import ir

REPO = os.environ.get('VC_REPO', '/repo')
_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vc_')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_tmp, ignore_errors=True)
        atexit.register(clean)
    return _tmp


class ExtractError(Exception):
    pass


CFLAGS = ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-discard-value-names',
          '-fPIC', '-w', '-fno-math-errno']
OPT = ['opt', '-S', '-passes=sroa']
_mods = {}


def compile_ll(src, extra=()):
    out = os.path.join(tmp(), hashlib.md5((src + repr(extra)).encode()).hexdigest() + '.ll')
    if not os.path.exists(out):
        t = '%s.%d' % (out, threading.get_native_id())
        r = subprocess.run(['clang++'] + CFLAGS + list(extra) + ['-o', t + '.0', src], capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('compile %s: %s' % (src, r.stderr[-2000:]))
        r = subprocess.run(OPT + ['-o', t, t + '.0'], capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('opt %s: %s' % (src, r.stderr[-2000:]))
        os.unlink(t + '.0')
        os.rename(t, out)
    return out


def module(tu):
    """tu relative to /repo/NULLC, or absolute"""
    m = _mods.get(tu)
    if m is None:
        src = tu if tu.startswith('/') else os.path.join(REPO, 'NULLC', tu)
        p = compile_ll(src, ('-I' + os.path.join(REPO, 'NULLC'), '-fno-access-control') if tu.startswith('/') else ())
        m = ir.Module(open(p).read(), tu)
        m.path = p
        _mods[tu] = m
    return m


def prebuild(tus, j):
    from concurrent.futures import ThreadPoolExecutor
    tmp()

    def one(tu):
        src = tu if tu.startswith('/') else os.path.join(REPO, 'NULLC', tu)
        compile_ll(src, ('-I' + os.path.join(REPO, 'NULLC'), '-fno-access-control') if tu.startswith('/') else ())
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(one, tus))


_dem = {}


def demangle(names):
    need = [n for n in names if n not in _dem]
    if need:
        r = subprocess.run(['c++filt'], input='\n'.join(need), capture_output=True, text=True)
        for a, b in zip(need, r.stdout.split('\n')):
            _dem[a] = b
    return {n: _dem[n] for n in names}


def find(mods, sig):
    """function by demangled name: exact signature, or unique 'name(' prefix"""
    names = []
    for m in mods:
        names += list(m.functions) + list(m.declares)
    names = sorted(set(names))
    d = demangle(names)
    ex = [n for n in names if d[n] == sig or n == sig or d[n] == sig + '()']
    if len(ex) == 1:
        return ex[0]
    pre = [n for n in names if d[n].startswith(sig + '(') or d[n].split(' ', 1)[-1].startswith(sig + '(')]
    if len(pre) == 1:
        return pre[0]
    if not pre:
        raise ExtractError('function not found: ' + sig)
    raise ExtractError('ambiguous function %s: %s' % (sig, [d[p] for p in pre]))


_consts = {}


def probe(headers, exprs, tag='probe'):
    """evaluate C++ constant expressions (offsetof/sizeof/enumerators) with /repo's headers"""
    key = (tuple(headers), tuple(exprs))
    if key in _consts:
        return _consts[key]
    src = os.path.join(tmp(), tag + hashlib.md5(repr(key).encode()).hexdigest()[:8] + '.cpp')
    with open('%s.%d' % (src, os.getpid()), 'w') as f:
        f.write('#include <stddef.h>\n')
        for h in headers:
            f.write('#include "%s"\n' % os.path.join(REPO, 'NULLC', h) if not h.startswith('<') else '#include %s\n' % h)
        f.write('#define OFF(T,m) __builtin_offsetof(T,m)\n')
        for i, e in enumerate(exprs):
            f.write('extern const long long vcprobe_%d = (long long)(%s);\n' % (i, e))
    os.rename('%s.%d' % (src, os.getpid()), src)
    p = compile_ll(src, ('-fno-access-control', '-Wno-everything'))
    t = open(p).read()
    res = {}
    for i, e in enumerate(exprs):
        m = re.search(r'^@vcprobe_%d = .*?constant i64 (-?\d+)' % i, t, re.M)
        if not m:
            raise ExtractError('probe failed for ' + e)
        res[e] = int(m.group(1))
    _consts[key] = res
    return res
