"""std.memory: checked binary reads and writes (NULLC/includes/memory.cpp)"""
from .common import *

TUS = ['includes/memory.cpp']
LOG = {'bool': 0, 'char': 0, 'short': 1, 'int': 2, 'long': 3, 'float': 2, 'double': 3}


def ok_access(ptr, ln, off, log, n):
    """the documented acceptance condition, in mathematical integers (64 bit)"""
    if ptr.base is None:
        return False
    L = zext(ln, 32, 64)
    O = sext(off, 32, 64)
    N = sext(n, 32, 64)
    return And(sge(O, 0, 64), sge(N, 0, 64), slt(O, L, 64), sle(add(O, mul(N, 1 << log, 64), 64), L, 64))


class MemBase(Contract):
    tus = TUS

    def stubs(self, Xc):
        return dict(RUNTIME)

    def verdict(self, acc, F, extra_err=0):
        """exactly one error if rejected, none if accepted"""
        return Iff(acc, errors(F) == 0)


class Read(MemBase):
    def __init__(self, t):
        self.t = t
        self.fn = 'NULLCMemory::read_' + t
        self.name = 'memory.read_' + t

    def setup(self, Xc):
        self.buf, self.len = script_array(Xc, 'buf')
        self.off = Xc.int('offset', 32)
        return [self.buf, self.len, self.off]

    def post(self, Xc, E0, F, ret):
        n = SIZES[self.t]
        acc = ok_access(self.buf, self.len, self.off, LOG[self.t], 1)
        yield 'error iff out of range', Iff(acc, errors(F) == 0)
        r = b2i(ret, 8) if self.t == 'bool' else ret
        yield 'rejected read returns zero', Or(acc, eq(r, 0, 8 * n))
        if self.buf.base is not None:
            v = Xc.E.rd(E0, self.buf + sext(self.off, 32, 64), n) if not Xc.concrete or acc else 0
            if self.t == 'bool':
                v = and_(v, 1, 8)
            yield 'value read is the stored bytes', Implies(acc, eq(r, v, 8 * n))
            yield 'buffer unchanged', unchanged(Xc, E0, F, 'buf')


class ReadInto(MemBase):
    def __init__(self, t):
        self.t = t
        self.fn = 'NULLCMemory::read_into_' + t
        self.name = 'memory.read(%s ref)' % t

    def setup(self, Xc):
        self.buf, self.len = script_array(Xc, 'buf')
        self.off = Xc.int('offset', 32)
        # a ref to a wider type cannot point into a char[] buffer
        k = Xc.choice('result', ['obj', 'null'] + (['alias'] if self.t == 'char' else []))
        n = SIZES[self.t]
        if k == 'null':
            self.res = NULL
        elif k == 'obj' or self.buf.base is None:
            self.res = Xc.obj('res', n)
        else:
            o = Xc.int('resoff', 64)
            L = zext(self.len, 32, 64)
            Xc.assume(And(ule(n, L, 64), ule(o, sub(L, n, 64), 64)))
            self.res = self.buf + o
        return [self.buf, self.len, self.off, self.res]

    def post(self, Xc, E0, F, ret):
        n = SIZES[self.t]
        acc = And(ok_access(self.buf, self.len, self.off, LOG[self.t], 1), self.res.base is not None)
        yield 'error iff out of range or null destination', Iff(acc, errors(F) == 0)
        if self.res.base is None:
            if self.buf.base is not None:
                yield 'buffer unchanged', unchanged(Xc, E0, F, 'buf')
            return
        old = Xc.E.rd(E0, self.res, n)
        new = Xc.E.rd(F, self.res, n)
        yield 'rejected read leaves destination', Or(acc, eq(new, old, 8 * n))
        if self.buf.base is not None:
            v = Xc.E.rd(E0, self.buf + sext(self.off, 32, 64), n) if not Xc.concrete or acc else 0
            yield 'destination gets the stored bytes', Implies(acc, eq(new, v, 8 * n))
            ex = (self.res.off, n) if self.res.base == 'buf' else None
            yield 'nothing else changes', unchanged(Xc, E0, F, 'buf', except_=ex)


class ReadArray(MemBase):
    def __init__(self, t):
        self.t = t
        self.fn = 'NULLCMemory::read_%s_array' % t
        self.name = 'memory.read_%s_array' % t

    def setup(self, Xc):
        self.buf, self.len = script_array(Xc, 'buf')
        self.off = Xc.int('offset', 32)
        self.cnt = Xc.int('elements', 32)
        return [self.buf, self.len, self.off, self.cnt]

    def post(self, Xc, E0, F, ret):
        n = SIZES[self.t]
        acc = ok_access(self.buf, self.len, self.off, LOG[self.t], self.cnt)
        allocs = [e for e in F.events if e[0] == 'alloc']
        rp, rl = ret
        rp = Xc.E.pp(rp)
        if errors(F):
            yield 'error only if out of range or out of memory', Or(Not(acc), F.ghost.get('nd', 0) > 0)
            yield 'error returns the empty array', And(Xc.E.icmp('eq', rp, NULL, ir.PTR), eq(rl, 0, 32))
        else:
            yield 'success only in range', acc
            yield 'one array of the element type allocated', And(len(allocs) == 1, *(And(eq(e[2], self.cnt, 32), e[3] == typeids()[self.t]) for e in allocs))
            yield 'element count', eq(rl, self.cnt, 32)
            if len(allocs) == 1:
                yield 'result is the new array', Xc.E.icmp('eq', rp, Ptr(allocs[0][1], 0), ir.PTR)
                if rp.base is not None and (not Xc.concrete or acc):
                    yield 'array contents are the stored bytes', Implies(acc, bytes_equal(Xc, 'c', F, rp, E0, self.buf + sext(self.off, 32, 64), simp(mul(zext(self.cnt, 32, 64), n, 64))))
        if self.buf.base is not None:
            yield 'buffer unchanged', unchanged(Xc, E0, F, 'buf')


class Write(MemBase):
    def __init__(self, t):
        self.t = t
        self.fn = 'NULLCMemory::write_' + t
        self.name = 'memory.write(%s)' % t

    def setup(self, Xc):
        self.buf, self.len = script_array(Xc, 'buf')
        self.off = Xc.int('offset', 32)
        n = SIZES[self.t]
        if self.t == 'bool':
            self.v = Xc.bool('value')
        else:
            self.v = Xc.int('value', 8 * n)
        return [self.buf, self.len, self.off, self.v]

    def post(self, Xc, E0, F, ret):
        n = SIZES[self.t]
        acc = ok_access(self.buf, self.len, self.off, LOG[self.t], 1)
        yield 'error iff out of range', Iff(acc, errors(F) == 0)
        if self.buf.base is None:
            return
        O = sext(self.off, 32, 64)
        v = b2i(self.v, 8) if self.t == 'bool' else self.v
        if not Xc.concrete or acc:
            yield 'value written', Implies(acc, eq(Xc.E.rd(F, self.buf + O, n), v, 8 * n))
            yield 'only the addressed bytes change', Implies(acc, unchanged(Xc, E0, F, 'buf', except_=(O, n)))
        if not Xc.concrete or not acc:
            yield 'rejected write changes nothing', Or(acc, unchanged(Xc, E0, F, 'buf'))


def two_arrays(Xc, a, b, elemb, alias=False):
    """two script arrays: null (then empty), distinct, or one and the same"""
    la = Xc.int(a + '.len', 32)
    opts = ['distinct', 'null-' + a, 'null-' + b, 'null-both'] + (['same'] if alias else [])
    k = Xc.choice(a + '/' + b, opts)
    A = zext(la, 32, 64)
    if k == 'same':
        m = Xc.obj('mem', A)
        return m, la, m, la
    lb = Xc.int(b + '.len', 32)
    B = simp(mul(zext(lb, 32, 64), elemb, 64))
    if k in ('null-' + a, 'null-both'):
        Xc.assume(eq(la, 0, 32))
        pa = NULL
    else:
        pa = Xc.obj(a, A)
    if k in ('null-' + b, 'null-both'):
        Xc.assume(eq(lb, 0, 32))
        pb = NULL
    else:
        pb = Xc.obj(b, B)
    return pa, la, pb, lb


class ArrayXfer(MemBase):
    """write_T_array(buf, off, value) and read_into_T_array(buf, off, result)"""

    def __init__(self, t, write):
        self.t = t
        self.write = write
        self.fn = 'NULLCMemory::%s_%s_array' % ('write' if write else 'read_into', t)
        self.name = 'memory.%s(%s[])' % ('write' if write else 'read', t)

    def setup(self, Xc):
        self.buf, self.len, self.val, self.cnt = two_arrays(Xc, 'buf', 'val', SIZES[self.t], self.t == 'char')
        self.off = Xc.int('offset', 32)
        return [self.buf, self.len, self.off, self.val, self.cnt]

    def post(self, Xc, E0, F, ret):
        n = SIZES[self.t]
        acc = ok_access(self.buf, self.len, self.off, LOG[self.t], self.cnt)
        if self.val.base is None:
            if self.write:
                # a null array has no elements
                acc = And(acc, eq(self.cnt, 0, 32))
            else:
                acc = False
        yield 'error iff out of range', Iff(acc, errors(F) == 0)
        at = self.buf + sext(self.off, 32, 64)
        N = simp(mul(zext(self.cnt, 32, 64), n, 64))
        dst, src = (at, self.val) if self.write else (self.val, at)
        live = [b for b in ('buf', 'val', 'mem') if b in E0.mem]
        if dst.base is not None and src.base is not None and (not Xc.concrete or acc):
            yield 'bytes transferred', Implies(acc, bytes_equal(Xc, 'x', F, dst, E0, src, N))
        for b in live:
            ex = (dst.off, N) if dst.base == b else None
            if not Xc.concrete or acc:
                yield 'only the destination range of %s changes' % b, Implies(acc, unchanged(Xc, E0, F, b, except_=ex))
            if not Xc.concrete or not acc:
                yield 'rejected transfer leaves %s' % b, Or(acc, unchanged(Xc, E0, F, b))


class Copy(MemBase):
    fn = 'NULLCMemory::copy'
    name = 'memory.copy'

    def setup(self, Xc):
        self.d, self.dl, self.s, self.sl = two_arrays(Xc, 'dst', 'src', 1, True)
        self.do, self.so, self.n = Xc.int('dstOffset', 32), Xc.int('srcOffset', 32), Xc.int('size', 32)
        return [self.d, self.dl, self.do, self.s, self.sl, self.so, self.n]

    def acc(self):
        return And(ok_access(self.d, self.dl, self.do, 0, self.n), ok_access(self.s, self.sl, self.so, 0, self.n))

    def post(self, Xc, E0, F, ret):
        acc = self.acc()
        yield 'error iff out of range', Iff(acc, errors(F) == 0)
        dst, src = self.d + sext(self.do, 32, 64), self.s + sext(self.so, 32, 64)
        N = sext(self.n, 32, 64)
        if dst.base is not None and src.base is not None and (not Xc.concrete or acc):
            yield 'bytes copied', Implies(acc, bytes_equal(Xc, 'x', F, dst, E0, src, N))
        for b in [b for b in ('dst', 'src', 'mem') if b in E0.mem]:
            ex = (dst.off, N) if dst.base == b else None
            if not Xc.concrete or acc:
                yield 'only the destination range of %s changes' % b, Implies(acc, unchanged(Xc, E0, F, b, except_=ex))
            if not Xc.concrete or not acc:
                yield 'rejected copy leaves %s' % b, Or(acc, unchanged(Xc, E0, F, b))


class SetMem(MemBase):
    fn = 'NULLCMemory::set'
    name = 'memory.set'

    def setup(self, Xc):
        self.buf, self.len = script_array(Xc, 'buf')
        self.off, self.v, self.n = Xc.int('offset', 32), Xc.int('value', 8), Xc.int('size', 32)
        return [self.buf, self.len, self.off, self.v, self.n]

    def post(self, Xc, E0, F, ret):
        acc = ok_access(self.buf, self.len, self.off, 0, self.n)
        yield 'error iff out of range', Iff(acc, errors(F) == 0)
        if self.buf.base is None:
            return
        O = sext(self.off, 32, 64)
        N = sext(self.n, 32, 64)
        o = F.mem['buf']
        if not Xc.concrete or acc:
            yield 'range filled', Implies(acc, forall(Xc, 'f', N, lambda i: eq(simp(o.byte(simp(add(O, i, 64)))), self.v, 8)))
            yield 'only the range changes', Implies(acc, unchanged(Xc, E0, F, 'buf', except_=(O, N)))
        if not Xc.concrete or not acc:
            yield 'rejected set changes nothing', Or(acc, unchanged(Xc, E0, F, 'buf'))


class Compare(Copy):
    fn = 'NULLCMemory::compare'
    name = 'memory.compare'

    def post(self, Xc, E0, F, ret):
        acc = self.acc()
        yield 'error iff out of range', Iff(acc, errors(F) == 0)
        yield 'rejected compare returns zero', Or(acc, eq(ret, 0, 32))
        l, r = self.d + sext(self.do, 32, 64), self.s + sext(self.so, 32, 64)
        N = sext(self.n, 32, 64)
        for b in [b for b in ('dst', 'src', 'mem') if b in E0.mem]:
            yield 'operands unchanged (%s)' % b, unchanged(Xc, E0, F, b)
        if l.base is None or r.base is None or (Xc.concrete and not acc):
            return
        a, b = E0.mem[l.base], E0.mem[r.base]
        yield 'zero only if all bytes equal', Implies(And(acc, eq(ret, 0, 32)), bytes_equal(Xc, 'z', E0, l, E0, r, N))
        at = lambda o, p, i: simp(o.byte(simp(add(p.off, i, 64))))
        if Xc.concrete:
            x = [at(a, l, i) for i in range(N)]
            y = [at(b, r, i) for i in range(N)]
            yield 'sign is the lexicographic order', ((sg(ret, 32) > 0) == (x > y)) and ((sg(ret, 32) < 0) == (x < y))
        else:
            # order: for every candidate first difference k, the sign follows byte k
            k = Xc.E.fresh('first', 64)
            ms = [(o.base[1].get_id(), [p.off]) for o, p in ((a, l), (b, r))]
            pre = Univ(k, lambda j: eq(at(a, l, j), at(b, r, j), 8), ms, [])
            goal = Implies(And(acc, ult(k, N, 64)), And(Implies(ult(at(a, l, k), at(b, r, k), 8), slt(ret, 0, 32)),
                                                         Implies(ult(at(b, r, k), at(a, l, k), 8), sgt(ret, 0, 32))))
            yield 'sign is the lexicographic order', (goal, [pre], ())


class Cast(MemBase):
    def __init__(self, fn, a, b):
        self.fn = 'NULLCMemory::' + fn
        self.name = 'memory.' + fn
        self.w = a

    def setup(self, Xc):
        self.v = Xc.int('v', self.w, True)
        return [self.v]

    def post(self, Xc, E0, F, ret):
        yield 'bit pattern preserved', eq(ret, self.v, self.w)
        yield 'no error', errors(F) == 0


def contracts():
    out = []
    for t in LOG:
        out += [Read(t), ReadInto(t), ReadArray(t), Write(t), ArrayXfer(t, True), ArrayXfer(t, False)]
    out += [Copy(), SetMem(), Compare()]
    out += [Cast('as_float', 32, 32), Cast('as_double', 64, 64), Cast('as_int', 32, 32), Cast('as_long', 64, 64)]
    return out
