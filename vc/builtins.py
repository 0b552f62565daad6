"""Semantics of LLVM intrinsics and the C library functions the code calls.
These are the trusted contracts of the environment."""
import z3
from .sym import *
from .mem import Unsupported
from . import ir


def line(I):
    return I.line if I is not None else None


def fnname(I):
    return I.fn.name if I is not None and getattr(I, 'fn', None) is not None else None


def copy_bytes(E, st, dst, src, n, I=None, what='memcpy'):
    n = simp(n)
    if isc(n) and n == 0:
        return
    if not isc(n):
        # n == 0 touches nothing
        z = E.feasible(st, n == 0)
        if z:
            nz = E.feasible(st, n != 0)
            if not nz:
                return
    dst = E.pp(dst)
    src = E.pp(src)
    cond0 = None
    if not isc(n) and z:
        cond0 = (n == 0)
    sb, so = _resolve(E, st, src, n, False, I, what + ' source', cond0)
    db, do = _resolve(E, st, dst, n, True, I, what + ' destination', cond0)
    if sb is None or db is None:
        return
    so_obj = E.obj(st, sb)
    if isc(n) and n <= 512:
        i = 0
        vals = []
        # word-wise so that pointers survive
        while i < n:
            step = 8 if n - i >= 8 else (4 if n - i >= 4 else (2 if n - i >= 2 else 1))
            if isc(so):
                # follow source cell granularity
                e = so_obj.cells.get(so + i)
                if e is not None and e[0] <= n - i:
                    step = e[0]
                elif e is None and so_obj.cells:
                    nxt = [co - (so + i) for co in so_obj.cells if so + i < co < so + i + step]
                    if nxt:
                        step = min(nxt)
            vals.append((i, step, so_obj.read(add(so, i, 64), step)))
            i += step
        o = E.obj(st, db)
        for i, step, v in vals:
            o = o.write(add(do, i, 64), step, v)
        st.mem[db] = o
        return
    st.mem[db] = E.obj(st, db).write_block(do, n, lambda d, so_obj=so_obj, so=so: so_obj.byte(simp(add(so, d, 64))))


def _resolve(E, st, p, n, write, I, what, cond0):
    """bounds obligation for n bytes; when n may be 0 the pointer may be anything then"""
    if cond0 is None:
        return E.resolve(st, p, n, write, line(I), fnname(I), what)
    if p.base is None:
        q = E.i2p(p.off)
        if q.base is not None:
            p = q
    if p.base is None and E.flat is None:
        E.require(st, cond0, 'null/invalid pointer %s' % what, line(I), fnname(I), 'memory')
        return None, None
    if p.base is None:
        if E.flat_ok is not None:
            E.require(st, Or(cond0, E.flat_ok(E, st, p.off, n, write)), 'valid %s' % what, line(I), fnname(I), 'memory')
        return E.flat, simp(p.off)
    o = E.obj(st, p.base)
    off = simp(p.off)
    cond = And(ule(n, o.size, 64), ule(off, sub(o.size, n, 64), 64))
    if 'freed' in o.flags or (write and 'const' in o.flags):
        cond = False
    E.require(st, Or(cond0, cond), 'in-bounds %s of %s' % (what, p.base), line(I), fnname(I), 'memory')
    return p.base, off


def b_memcpy(E, st, a, I):
    n = a[2]
    if E.check_overlap:
        d, s = E.pp(a[0]), E.pp(a[1])
        if d.base == s.base and d.base is not None:
            nn = simp(n)
            if not (isc(nn) and nn == 0):
                E.require(st, Or(eq(nn, 0, 64), eq(d.off, s.off, 64), ule(nn, simp(sub(d.off, s.off, 64)), 64),
                                 False) if False else
                          Or(eq(nn, 0, 64), eq(d.off, s.off, 64),
                             And(ule(nn, simp(sub(d.off, s.off, 64)), 64), ule(nn, simp(sub(s.off, d.off, 64)), 64))),
                          'memcpy regions do not overlap', line(I), fnname(I), 'overlap')
    copy_bytes(E, st, a[0], a[1], n, I)
    return E.pp(a[0])


def b_memmove(E, st, a, I):
    copy_bytes(E, st, a[0], a[1], a[2], I, 'memmove')
    return E.pp(a[0])


def b_memset(E, st, a, I):
    p, v, n = E.pp(a[0]), a[1], simp(a[2])
    v = trunc(v, 32, 8) if not isc(v) and v.size() == 32 else (v & 255 if isc(v) else v)
    if isc(n) and n == 0:
        return p
    cond0 = None
    if not isc(n) and E.feasible(st, n == 0):
        cond0 = n == 0
    b, off = _resolve(E, st, p, n, True, I, 'memset', cond0)
    if b is None:
        return p
    st.mem[b] = E.obj(st, b).write_block(off, n, lambda d: v)
    if isc(n) and n <= 64 and isc(off) and isc(v):
        o = E.obj(st, b)
        # concrete small set: cells
        i = 0
        while i < n:
            k = 8 if n - i >= 8 else 1
            o = o.write(off + i, k, int.from_bytes(bytes([v]) * k, 'little'))
            i += k
        st.mem[b] = o
    return p


def b_strlen(E, st, a, I):
    """result n: bytes 0..n-1 non-zero, byte n zero, all in bounds of the object"""
    p = E.pp(a[0])
    b, off = E.resolve(st, p, 1, False, line(I), fnname(I), 'strlen')
    o = E.obj(st, b)
    if isc(off) and o.base[0] == 'raw' and not o.cells and o.log is None:
        raw = o.base[1]
        k = raw.find(b'\0', off)
        if k < 0:
            E.require(st, False, 'string terminated inside %s' % b, line(I), fnname(I), 'memory')
        return k - off
    # walk concrete leading bytes
    if isc(off):
        for k in range(64):
            c = o.byte(off + k) if not isc(o.size) or off + k < o.size else None
            c = simp(c) if c is not None else None
            if c is None or not isc(c):
                break
            if c == 0:
                return k
    from .engine import Univ
    n = E.fresh('strlen', 64)
    term = o.byte(simp(add(off, n, 64)))
    # the object must contain a terminator: contract fact via ghost 'cstr'
    lim = st.ghost.get(('cstr', b))
    if lim is None:
        E.require(st, False, 'string terminated inside %s' % b, line(I), fnname(I), 'memory')
    else:
        # lim: known offset of a zero byte in the object (bytes beyond not read)
        E.require(st, ule(off, lim, 64), 'string terminated inside %s' % b, line(I), fnname(I), 'memory')
        st.pc = st.pc + (z3.ULE(n, bv(sub(lim, off, 64), 64)),)
    st.pc = st.pc + tuple(x for x in (simp(eq(term, 0, 8)),) if not isinstance(x, bool))
    if o.base[0] == 'arr':
        decl = o.base[1].get_id()
        st.univ = st.univ + (Univ(n, lambda j, o=o, off=off: ne(o.byte(simp(add(off, j, 64))), 0, 8), [(decl, [off])], [0, sub(n, 1, 64)]),)
    return n


def b_memcmp(E, st, a, I):
    p, q, n = E.pp(a[0]), E.pp(a[1]), simp(a[2])
    cond0 = None
    if isc(n) and n == 0:
        return 0
    if not isc(n) and E.feasible(st, n == 0):
        cond0 = n == 0
    b1, o1 = _resolve(E, st, p, n, False, I, 'memcmp', cond0)
    b2, o2 = _resolve(E, st, q, n, False, I, 'memcmp', cond0)
    if b1 is None or b2 is None:
        return 0
    x, y = E.obj(st, b1), E.obj(st, b2)
    from .engine import Univ
    if isc(n) and n <= 16:
        c = [(simp(x.byte(simp(add(o1, i, 64)))), simp(y.byte(simp(add(o2, i, 64))))) for i in range(n)]
        r = 0
        for u, v in reversed(c):
            d = sub(zext(u, 8, 32), zext(v, 8, 32), 32)
            r = ite(eq(d, 0, 32), r, d, 32)
        return r
    # equal case / first difference case
    s2 = st.copy()
    ms = []
    for o, off in ((x, o1), (y, o2)):
        if o.base[0] == 'arr':
            ms.append((o.base[1].get_id(), [off]))
    body = lambda j: eq(x.byte(simp(add(o1, j, 64))), y.byte(simp(add(o2, j, 64))), 8)
    st.univ = st.univ + (Univ(n, body, ms, []),)
    k = E.fresh('diff', 64)
    s2.univ = s2.univ + (Univ(k, body, ms, []),)
    bx, by = x.byte(simp(add(o1, k, 64))), y.byte(simp(add(o2, k, 64)))
    s2.pc = s2.pc + (z3.ULT(k, bv(n, 64)), ne(bx, by, 8))
    r = sub(zext(bx, 8, 32), zext(by, 8, 32), 32)
    out = [(st, 0)]
    if E.feasible(s2):
        out.append((s2, r))
    return out


def b_strcmp(E, st, a, I):
    p, q = E.pp(a[0]), E.pp(a[1])
    raise Unsupported('strcmp')


def b_assert_fail(E, st, a, I):
    E.require(st, False, 'assertion holds', line(I), fnname(I), 'assert')
    return []


def b_abort(E, st, a, I):
    E.require(st, False, 'abort not reached', line(I), fnname(I), 'assert')
    return []


def b_new(E, st, a, I):
    E.fresh_n += 1
    return E.new_obj(st, 'heap!%d' % E.fresh_n, simp(a[0]))


def b_delete(E, st, a, I):
    p = E.pp(a[0])
    if p.base is None:
        if isc(p.off) and p.off == 0:
            return None
        raise Unsupported('free of unknown pointer')
    o = E.obj(st, p.base).clone()
    E.require(st, And(not ('freed' in o.flags), eq(p.off, 0, 64)), 'valid free', line(I), fnname(I), 'memory')
    o.flags = o.flags | {'freed'}
    st.mem[p.base] = o
    return None


def m2(name):
    def h(E, st, a, I):
        return fop(name, list(a), 64)
    return h


def ignore(E, st, a, I):
    return None


LIB = {
    'memcpy': b_memcpy, 'memmove': b_memmove, 'memset': b_memset, 'strlen': b_strlen, 'memcmp': b_memcmp,
    '__assert_fail': b_assert_fail, 'abort': b_abort, '__cxa_pure_virtual': b_abort, '_ZSt9terminatev': b_abort,
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, '_ZdlPv': b_delete, '_ZdaPv': b_delete, 'free': b_delete,
    '_ZdlPvm': b_delete,
    'pow': m2('pow'), 'fmod': m2('frem'), 'sqrt': m2('sqrt'), 'ceil': m2('ceil'), 'floor': m2('floor'),
    'sin': m2('sin'), 'cos': m2('cos'), 'tan': m2('tan'), 'exp': m2('exp'), 'log': m2('log'),
}


def i_minmax(f):
    def h(E, st, a, I):
        w = E.width(I.ty)
        return ite(f(a[0], a[1], w), a[0], a[1], w)
    return h


def i_abs(E, st, a, I):
    w = E.width(I.ty)
    return ite(slt(a[0], 0, w), neg(a[0], w), a[0], w)


def i_fabs(E, st, a, I):
    w = E.width(I.ty)
    return and_(a[0], M(w - 1), w)


def i_expect(E, st, a, I):
    return a[0]


def i_fma(E, st, a, I):
    w = E.width(I.ty)
    return fop('fadd', [fop('fmul', [a[0], a[1]], w), a[2]], w)


def i_trap(E, st, a, I):
    E.require(st, False, 'trap not reached', line(I), fnname(I), 'assert')
    return []


def i_ctlz(E, st, a, I):
    raise Unsupported('ctlz')


def intrinsic(name):
    if name.startswith('llvm.memcpy'):
        return b_memcpy
    if name.startswith('llvm.memmove'):
        return b_memmove
    if name.startswith('llvm.memset'):
        return b_memset
    p = name.split('.')
    if p[1] in ('dbg', 'lifetime', 'assume', 'invariant', 'stacksave', 'stackrestore', 'va_start', 'va_end', 'donothing', 'experimental'):
        return ignore
    if p[1] == 'smax':
        return i_minmax(sgt)
    if p[1] == 'smin':
        return i_minmax(slt)
    if p[1] == 'umax':
        return i_minmax(ugt)
    if p[1] == 'umin':
        return i_minmax(ult)
    if p[1] == 'abs':
        return i_abs
    if p[1] == 'fabs':
        return i_fabs
    if p[1] == 'expect':
        return i_expect
    if p[1] == 'fmuladd':
        return i_fma
    if p[1] == 'trap':
        return i_trap
    if p[1] in ('sqrt', 'pow', 'ceil', 'floor', 'sin', 'cos', 'exp', 'log'):
        return m2(p[1])
    return None
