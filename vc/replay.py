"""Native replay of a concrete entry state against the real compiled code."""
import ctypes, os, re, subprocess, sys, signal, time, mmap, pickle, struct
from . import ir, build
from .ir import sizeof, layout
from .sym import *
from .mem import Obj, Unsupported
from .engine import Engine, State

_so = {}
PG = 4096
BIG = 1 << 24


def split_params(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def sig_parts(hdr):
    """(ret text, [param text]) of a define/declare line"""
    m = re.search(r'@("[^"]*"|[-\w$.]+)\(', hdr)
    pre = hdr[:m.start()]
    i = m.end()
    d = 1
    j = i
    while d:
        if hdr[j] == '(':
            d += 1
        elif hdr[j] == ')':
            d -= 1
        j += 1
    params = split_params(hdr[i:j - 1])
    pre = re.sub(r'^(define|declare)\s+', '', pre)
    toks = pre.split(' ')
    while toks and (toks[0] in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'hidden', 'weak', 'available_externally', 'local_unnamed_addr', 'unnamed_addr') or toks[0] == ''):
        toks.pop(0)
    ret = ' '.join(toks).strip()
    ret = re.sub(r'\b(noundef|signext|zeroext|nonnull|noalias|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\))\s*', '', ret).strip()
    return ret, params


def strip_name(p):
    return re.sub(r'\s+%("[^"]*"|[-\w$.]+)$', '', p)


def ptype_text(p):
    """leading type of a parameter text"""
    if p[0] in '{[<':
        d = 0
        for i, ch in enumerate(p):
            if ch in '{[<':
                d += 1
            elif ch in '}]>':
                d -= 1
                if d == 0:
                    return p[:i + 1]
    return p.split(' ')[0]


KEEP = None


def libc_has(name):
    if name.startswith('llvm.') or name == '__dso_handle':
        return True
    global KEEP
    if KEEP is None:
        KEEP = [ctypes.CDLL(None), ctypes.CDLL('libm.so.6'), ctypes.CDLL('libstdc++.so.6')]
    for l in KEEP:
        try:
            getattr(l, name)
            return True
        except AttributeError:
            pass
    return False


def build_so(mods, target, stubnames):
    """stubnames: functions (mangled) whose body is replaced by a callback"""
    key = (tuple(m.path for m in mods), target, tuple(sorted(stubnames)))
    if key in _so:
        return _so[key]
    tag = os.path.join(build.tmp(), 'so%d_%d' % (os.getpid(), len(_so)))
    lls = []
    defined = set()
    undecl = {}
    typedefs = {}
    ext_data = {}
    defdata = set()
    for i, m in enumerate(mods):
        t = m.text
        t = re.sub(r'^(define )internal (?=[^\n]*@%s\()' % re.escape(target), r'\1', t, flags=re.M)
        for s in stubnames:
            if s in m.functions:
                pat = re.compile(r'^define [^\n]*@"?%s"?\(.*?^}\n' % re.escape(s), re.M | re.S)
                mm = pat.search(t)
                if mm:
                    hdr = mm.group().split('\n')[0]
                    ret, ps = sig_parts(hdr)
                    undecl[s] = (ret, ps, m)
                    va = ''
                    decl = 'declare %s @%s(%s)\n' % (ret, s, ', '.join(strip_name(p) for p in ps))
                    t = t[:mm.start()] + decl + t[mm.end():]
        # tables of label addresses inside a replaced function
        t = re.sub(r'^(@[-\w$.]+ = [^\n]*?(?:global|constant) \[[^\]]*\]) \[ptr blockaddress\(@(%s),[^\n]*?\](, align \d+)?$' % '|'.join(map(re.escape, stubnames or ['-'])),
                   r'\1 zeroinitializer\3', t, flags=re.M)
        # make internal data visible so that the replay can set it (names made unique per module)
        for nm, rhs in m.globals.items():
            if rhs.startswith('internal global'):
                t = t.replace('@%s = internal global' % nm, '@%s = global' % nm)
        t = re.sub(r', !dbg !\d+', '', t)
        t = re.sub(r'^!.*\n', '', t, flags=re.M)
        t = re.sub(r'^(define [^\n]*?) !dbg !\d+ \{', r'\1 {', t, flags=re.M)
        t = re.sub(r'^  (tail )?call void @llvm\.dbg[^\n]*\n', '', t, flags=re.M)
        t = re.sub(r', !(prof|srcloc|llvm\.loop|heapallocsite|range|noundef|nosanitize) ![0-9]+', '', t)
        fn = '%s_%d.ll' % (tag, i)
        open(fn, 'w').write(t)
        lls.append(fn)
        for n in m.functions:
            if n not in stubnames:
                defined.add(n)
        for n, rhs in m.globals.items():
            if not re.match(r'(external|extern_weak)', rhs):
                defdata.add(n)
    for m in mods:
        for n, l in m.declares.items():
            if n not in defined and (not libc_has(n) or n in stubnames):
                if n not in undecl:
                    ret, ps = sig_parts(l)
                    undecl[n] = (ret, ps, m)
        for n, rhs in m.globals.items():
            if rhs.startswith('external') and n not in defdata and not libc_has(n):
                ext_data[n] = m.ginit(n)[0]
        typedefs.update(m.typedefs)
    # shim module
    out = ['@__vc_cb = global ptr null']
    tm = None
    for m in mods:
        if target in m.functions:
            tm = m
    f = tm.fn(target)
    ids = {}
    body = []
    for n, (ret, ps, m) in sorted(undecl.items()):
        ids[n] = len(ids)
        va = ps and ps[-1] == '...'
        fixed = [p for p in ps if p != '...']
        sig = []
        lines = []
        lines.append('  %%slots = alloca [%d x i64], align 16' % (max(1, len(fixed))))
        lines.append('  %%retb = alloca [64 x i8], align 16')
        lines.append('  call void @llvm.memset.p0.i64(ptr %retb, i8 0, i64 64, i1 false)')
        for i, p in enumerate(fixed):
            p = strip_name(p)
            sig.append('%s %%a%d' % (p, i))
            ty = ptype_text(p)
            lines.append('  %%s%d = getelementptr i64, ptr %%slots, i64 %d' % (i, i))
            lines.append('  store i64 0, ptr %%s%d' % i)
            lines.append('  store %s %%a%d, ptr %%s%d' % (ty, i, i))
        lines.append('  %cb = load ptr, ptr @__vc_cb')
        # static initialisers may call a stub before the callback is installed
        lines.append('  %nocb = icmp eq ptr %cb, null')
        lines.append('  br i1 %nocb, label %done, label %docb')
        lines.append('docb:')
        lines.append('  call void %%cb(i64 %d, ptr %%slots, ptr %%retb)' % ids[n])
        lines.append('  br label %done')
        lines.append('done:')
        if ret == 'void':
            lines.append('  ret void')
        else:
            lines.append('  %%rv = load %s, ptr %%retb' % ret)
            lines.append('  ret %s %%rv' % ret)
        body.append('define %s @%s(%s) {\n%s\n}' % (ret, n if re.match(r'^[-\w$.]+$', n) else '"%s"' % n, ', '.join(sig + (['...'] if va else [])), '\n'.join(l.replace('%%', '%') for l in lines)))
    ret, ps = sig_parts(f.header)
    lines = []
    sig = []
    for i, p in enumerate(ps):
        p = strip_name(p)
        ty = ptype_text(p)
        lines.append('  %%p%d = getelementptr i64, ptr %%args, i64 %d' % (i, i))
        lines.append('  %%v%d = load %s, ptr %%p%d' % (i, ty, i))
        sig.append('%s %%v%d' % (p, i))
    if ret == 'void':
        lines.append('  call void @%s(%s)' % (target, ', '.join(sig)))
    else:
        lines.append('  %%r = call %s @%s(%s)' % (ret, target, ', '.join(sig)))
        lines.append('  store %s %%r, ptr %%ret' % ret)
    lines.append('  ret void')
    body.append('define void @__vc_entry(ptr %args, ptr %ret) {\n' + '\n'.join(lines) + '\n}')
    body.append('declare %s @%s(%s)' % (ret, target, ', '.join(strip_name(p) for p in ps)))
    body.append('declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)')
    used = '\n'.join(body)
    tds = []
    seen = set()
    todo = re.findall(r'%("[^"]*"|[-\w$.]+)', used)
    while todo:
        n = '%' + todo.pop().strip('"')
        if n in typedefs and n not in seen:
            seen.add(n)
            nm = n if re.match(r'^%[-\w$.]+$', n) else '%"' + n[1:] + '"'
            tds.append('%s = type %s' % (nm, typedefs[n]))
            todo += re.findall(r'%("[^"]*"|[-\w$.]+)', typedefs[n])
    gd = ['@%s = global [%d x i8] zeroinitializer, align 16' % (n, sizeof(t)) for n, t in ext_data.items()]
    open(tag + '_shim.ll', 'w').write('target triple = "x86_64-pc-linux-gnu"\n' + '\n'.join(tds + gd + out + body) + '\n')
    so = tag + '.so'
    r = subprocess.run(['clang', '-shared', '-fPIC', '-w', '-O0', '-o', so, tag + '_shim.ll'] + lls + ['-lm', '-lstdc++', '-Wl,-Bsymbolic'],
                       capture_output=True, text=True)
    if r.returncode:
        raise Unsupported('replay build: ' + r.stderr[-1500:])
    _so[key] = (so, ids)
    return _so[key]


class Mem:
    """native object placement with guard pages"""

    def __init__(self):
        libc = ctypes.CDLL(None, use_errno=True)
        self.mmap = libc.mmap
        self.mmap.restype = ctypes.c_void_p
        self.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        self.mprotect = libc.mprotect
        self.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]

    def alloc(self, size, at_end, align=1):
        n = (size + PG - 1) // PG * PG
        n = max(n, PG)
        a = self.mmap(None, n + 2 * PG, 3, 0x4022, -1, 0)
        if a is None or a == (1 << 64) - 1:
            raise Unsupported('cannot map %d bytes' % n)
        self.mprotect(a, PG, 0)
        self.mprotect(a + PG + n, PG, 0)
        if at_end:
            return (a + PG + n - size) // align * align
        return a + PG

    def fixed(self, addr, size):
        a0 = addr // PG * PG
        n = (addr + size - a0 + PG - 1) // PG * PG
        a = self.mmap(a0, n, 3, 0x22 | 0x100000, -1, 0)
        if a is None or a != a0:
            raise Unsupported('cannot map %x' % a0)


def run_native(contract, mods, target, mkentry, at_end=True, timeout=10):
    """mkentry(E) -> (state, args, X).  Runs in a forked child.
    returns dict(status='ok'|'crash'|'error', failed=[...])"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            sys.stdout = open(os.devnull, 'w')
            signal.alarm(timeout)
            res = _child(contract, mods, target, mkentry, at_end)
        except BaseException as e:
            import traceback
            res = dict(status='error', error=repr(e) + traceback.format_exc()[-1500:])
        try:
            os.write(w, pickle.dumps(res)[:60000])
        except BaseException:
            os._exit(3)
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGPROF:
            return dict(status='error', error='the run over a very large object takes too long')
        return dict(status='timeout' if s == signal.SIGALRM else 'crash', signal=s)
    try:
        return pickle.loads(data)
    except Exception as e:
        return dict(status='error', error='no result %r' % e)


def _child(contract, mods, target, mkentry, at_end):
    E = Engine(mods)
    E.concrete_map = []
    st, args, X = mkentry(E)
    stubs = X.stubs
    stubn = [n for n in stubs if n != '<indirect>']
    so, ids = build_so(mods, target, stubn)
    lib = ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
    M_ = Mem()
    rev = {v: k for k, v in ids.items()}

    def place(b, o):
        size = o.size if o.size is not None else 0
        if b.startswith('g:'):
            nm = b.split(':', 2)[2]
            try:
                a = ctypes.addressof(ctypes.c_char.in_dll(lib, nm))
            except ValueError:
                return None
        elif b in X.fixed:
            a = X.fixed[b]
            if size:
                M_.fixed(a, size)
        else:
            a = M_.alloc(size, at_end, X.align.get(b, 1))
        E.concrete_map.append((a, size, b))
        return a
    for b, o in list(st.mem.items()):
        place(b, o)
    if any(o.size is not None and o.size > BIG for o in st.mem.values()):
        # walking a very large object takes long without anything being wrong
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 5)

    def conv(p):
        if not isinstance(p, Ptr):
            return p
        if p.base is None:
            return p.off
        if p.base.startswith('fn:'):
            return ctypes.cast(getattr(lib, p.base[3:]), ctypes.c_void_p).value
        return E.p2i(p)

    def content(o):
        size = o.size
        if size > BIG:
            if o.log is not None or o.cells or o.base[0] not in ('raw', 'zero'):
                raise Unsupported('large object')
            return bytes(o.base[1]) if o.base[0] == 'raw' else b''
        if o.base[0] == 'raw':
            buf = bytearray(o.base[1][:size].ljust(size, b'\xcd'))
        elif o.base[0] == 'zero':
            buf = bytearray(size)
        else:
            buf = bytearray(b'\xcd' * size)
        log = []
        n = o.log
        while n is not None:
            log.append(n)
            n = n[0]
        for prev, kind, off, n, v in reversed(log):
            if kind == 'w':
                buf[off:off + n] = int(conv(v)).to_bytes(n, 'little')
            else:
                for i in range(n):
                    buf[off + i] = v(i)
        for off, (n, v) in o.cells.items():
            if off + n <= size:
                buf[off:off + n] = int(conv(v) & M(8 * n)).to_bytes(n, 'little')
        return bytes(buf)

    def flushout(st):
        for b, o in st.mem.items():
            for a, n, bb in E.concrete_map:
                if bb == b:
                    if n and 'const' not in o.flags:
                        if o.base[0] == 'live':
                            break
                        c = content(o)
                        ctypes.memmove(a, c, len(c))
                    break

    def snapshot(old):
        s = old.copy()
        for a, n, b in E.concrete_map:
            o = old.mem[b]
            if n > BIG:
                if old is not st:
                    o = Obj(b, o.size, ('live', a), flags=o.flags, conv=E.p2i)
                s.mem[b] = o
                continue
            s.mem[b] = Obj(b, o.size, ('raw', ctypes.string_at(a, n)), flags=o.flags, conv=E.p2i)
        return s
    flushout(st)
    entry = snapshot(st)
    entry_orig = st
    cur = [snapshot(st)]
    X.native = True
    err = []

    def cb(i, slots, retb):
        try:
            n = rev[i]
            ret_t, ps, m = None, None, None
            for mm in mods:
                if n in mm.functions or n in mm.declares:
                    hdr = mm.functions[n] if n in mm.functions else mm.declares[n]
                    if isinstance(hdr, tuple):
                        hdr = hdr[0]
                    elif not isinstance(hdr, str):
                        hdr = hdr.header
                    m = mm
                    break
            rt, ps = sig_parts(hdr)
            T = ir.tokenize(rt)
            rty, _ = m.ptype(T, 0)
            a = []
            for j, p in enumerate(p for p in ps if p != '...'):
                ty, _ = m.ptype(ir.tokenize(ptype_text(p)) + [('end', '')], 0)
                raw = ctypes.string_at(slots + 8 * j, 8)
                v = int.from_bytes(raw, 'little')
                if ty[0] == 'ptr':
                    v = E.i2p(v)
                elif ty[0] == 'i':
                    v = v & M(ty[1])
                    if ty[1] == 1:
                        v = bool(v)
                a.append(v)
            s = snapshot(cur[0])
            before = dict(s.mem)
            if n not in stubs:
                if E.default_ext_c is None:
                    raise Unsupported('unmodelled external ' + n)
                res = E.default_ext_c(E, s, n, a, None)
            else:
                res = stubs[n](E, s, a, None)
            if not isinstance(res, list):
                res = [(s, res)]
            if not res:
                raise Unsupported('no outcome for stub ' + n)
            s2, rv = res[0]
            for b, o in s2.mem.items():
                if b not in before:
                    place(b, o)
            ch = State()
            ch.mem = {b: o for b, o in s2.mem.items() if before.get(b) is not o}
            flushout(ch)
            cur[0] = snapshot(s2)
            if rv is not None and rty != ir.VOID:
                buf = bytearray(sizeof(rty))

                def put(off, t, v):
                    if t[0] == 'st':
                        for o2, t2, v2 in zip(layout(t)[2], t[1], v):
                            put(off + o2, t2, v2)
                    else:
                        nn = sizeof(t)
                        buf[off:off + nn] = (int(conv(v)) & M(8 * nn)).to_bytes(nn, 'little')
                put(0, rty, rv)
                ctypes.memmove(retb, bytes(buf), len(buf))
        except BaseException as e:
            import traceback
            err.append(repr(e) + traceback.format_exc()[-800:])
    CB = ctypes.CFUNCTYPE(None, ctypes.c_int64, ctypes.c_void_p, ctypes.c_void_p)
    c = CB(cb)
    ctypes.c_void_p.in_dll(lib, '__vc_cb').value = ctypes.cast(c, ctypes.c_void_p).value
    ab = ctypes.create_string_buffer(8 * max(1, len(args)) + 16)
    for i, v in enumerate(args):
        v = conv(v)
        ctypes.memmove(ctypes.addressof(ab) + 8 * i, (int(v) & M(64)).to_bytes(8, 'little'), 8)
    rb = ctypes.create_string_buffer(256)
    fn = lib.__vc_entry
    fn.argtypes = [ctypes.c_void_p, ctypes.c_void_p]
    fn.restype = None
    for h in getattr(X, 'preload', []):
        h(lib)
    fn(ctypes.addressof(ab), ctypes.addressof(rb))
    if err:
        return dict(status='error', error=err[0])
    fin = snapshot(cur[0])
    fin.events = cur[0].events
    tf = None
    for m in mods:
        if target in m.functions:
            tf = m.fn(target)
    rty = tf.rettype

    def get(off, t):
        if t == ir.VOID:
            return None
        if t[0] == 'st':
            return tuple(get(off + o, t2) for o, t2 in zip(layout(t)[2], t[1]))
        n = sizeof(t)
        v = int.from_bytes(rb.raw[off:off + n], 'little')
        if t[0] == 'ptr':
            return E.i2p(v)
        if t[0] == 'i':
            v &= M(t[1])
            if t[1] == 1:
                v = bool(v & 1)
        return v
    ret = get(0, rty)
    X.E = E
    X.entry = entry
    entry.events = entry_orig.events
    entry.ghost = entry_orig.ghost
    failed = []
    det = []
    for nm, c in contract.post(X, entry, fin, ret):
        c = simp(c) if not isinstance(c, bool) else c
        if c is not True and c != 1:
            failed.append(nm)
    return dict(status='ok', failed=failed, ret=repr(ret)[:200], events=repr(fin.events)[:300])
