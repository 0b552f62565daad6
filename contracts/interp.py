"""Register VM interpreter: one contract per opcode on ExecutorRegVm::RunCode."""
from .common import *
from vc.engine import StopPath
from vc.sym import FCONC

TU = 'Executor_RegVm.cpp'
FN = 'ExecutorRegVm::RunCode'
OPS = '''Nop LoadByte LoadWord LoadDword LoadLong LoadFloat LoadDouble LoadImm StoreByte StoreWord StoreDword StoreLong StoreFloat StoreDouble
Combinedd Breakupdd Mov MovMult Dtoi Dtol Dtof Itod Ltod Itol Ltoi Index GetAddr SetRange MemCopy Jmp Jmpz Jmpnz Call CallPtr Return AddImm
Add Sub Mul Div Pow Mod Less Greater Lequal Gequal Equal Nequal Shl Shr BitAnd BitOr BitXor AddImml
Addl Subl Mull Divl Powl Modl Lessl Greaterl Lequall Gequall Equall Nequall Shll Shrl BitAndl BitOrl BitXorl
Addd Subd Muld Divd Addf Subf Mulf Divf Powd Modd Lessd Greaterd Lequald Gequald Equald Nequald
Neg Negl Negd BitNot BitNotl LogNot LogNotl ConvertPtr'''.split()
NREG = 256
CUR = 7          # index of the instruction under contract
NCODE = 4096     # size of the concrete code area

_k = None


def K():
    global _k
    if _k is None:
        ex = ['rvi' + o for o in OPS] + ['rvrError', 'rvrrRegisters', 'rvsrDouble', 'rvsrFloat', 'rvsrLong', 'rvsrInt', 'rvsrShort', 'rvsrChar', 'sizeof(ExecutorRegVm)', 'OFF(ExecutorRegVm,codeBase)',
                                        'OFF(RegVmCmd,code)', 'OFF(RegVmCmd,rA)', 'OFF(RegVmCmd,rB)', 'OFF(RegVmCmd,rC)', 'OFF(RegVmCmd,argument)', 'sizeof(RegVmCmd)', 'sizeof(RegVmRegister)']
        _k = build.probe(['stdafx.h', 'Executor_RegVm.h'], ex)
    return _k


def vm_pow(w):
    name = 'vmpow%d' % w

    def f(power, number):
        if isc(power) and isc(number):
            p = sg(power, w)
            n = sg(number, w)
            if p < 0:
                r = 1 if n == 1 else ((-1 if p & 1 else 1) if n == -1 else 0)
            else:
                r = pow(n & M(w), p, 1 << w)
            return r & M(w)
        return UF(name, [w, w], w)(bv(power, w), bv(number, w))
    return f


def cstring(E, st, p):
    p = E.pp(p)
    if p.base is None:
        if E.concrete_map is not None:
            import ctypes
            return ctypes.string_at(p.off)
        raise Unsupported('error message is not a constant string')
    o = E.obj(st, p.base)
    if o.base[0] != 'raw' or not isc(p.off):
        raise Unsupported('error message is not a constant string')
    return bytes(o.base[1][p.off:]).split(b'\0')[0]


CATS = [(b'null pointer', 'null'), (b'division by zero', 'div'), (b'overflow', 'overflow'), (b'out of bounds', 'bounds'), (b'invalid function pointer', 'fptr')]


def exec_error(E, st, a, I):
    msg = cstring(E, st, a[2]).lower()
    cat = 'other'
    for s, c in CATS:
        if s in msg:
            cat = c
    p = E.pp(a[1])
    st.events = st.events + (('err', cat, p.base, p.off),)
    return K()['rvrError']


def cmdword(E, st, c, I):
    """by-value RegVmCmd arrives as one 64 bit integer"""
    return c


def ndint(E, st, tag, w):
    n = st.ghost.get('nd', 0)
    st.ghost['nd'] = n + 1
    name = 'nd:%s#%d' % (tag, n)
    if E.concrete_map is not None:
        return int(E.ndvals.get(name, 0)) & M(w)
    return z3.BitVec(name, w)


def exec_call(E, st, a, I):
    p = E.pp(a[3])
    r = E.pp(a[4])
    st.events = st.events + (('call', a[1], a[2], p.base, p.off, r.base, r.off),)
    return ndbool(E, st, 'callok')


def exec_convert(E, st, a, I):
    p = E.pp(a[2])
    r = E.pp(a[3])
    st.events = st.events + (('convert', a[1], p.base, p.off, r.base, r.off),)
    return ndbool(E, st, 'convok')


def exec_return(E, st, a, I):
    p = E.pp(a[2])
    r = E.pp(a[3])
    st.events = st.events + (('ret', a[1], p.base, p.off, r.base, r.off),)
    return ndint(E, st, 'retval', 32)


def exec_nop(E, st, a, I):
    p = E.pp(a[2])
    r = E.pp(a[3])
    st.events = st.events + (('nop', a[1], p.base, p.off, r.base, r.off),)
    ok = ndbool(E, st, 'nopok')
    t = ndint(E, st, 'noppos', 16)
    pos = mul(zext(and_(t, NCODE - 1, 16), 16, 64), 8, 64)
    if E.concrete_map is not None:
        return Ptr('code', pos) if ok and pos != CUR * 8 else NULL
    s2 = st.copy()
    s2.pc = s2.pc + (z3.And(ok, pos != CUR * 8),)
    st.pc = st.pc + (z3.Not(z3.And(ok, pos != CUR * 8)),)
    return [(s2, Ptr('code', pos)), (st, NULL)]


class V:
    """entry values seen by an opcode's specification"""

    def __init__(self, c, Xc, S):
        self.c, self.X, self.S = c, Xc, S
        self.E = Xc.E
        self.A, self.B, self.C, self.arg = c.rA, c.rB, c.rC, c.arg

    def reg(self, r, n=8):
        w = 8 if isc(r) else r.size() if not isinstance(r, int) else 8
        return self.E.rd(self.S, Ptr('regs', simp(mul(zext(r, w, 64), 8, 64))), n)

    def r32(self, r):
        return self.reg(r, 4)

    def r64(self, r):
        return self.reg(r, 8)

    def mem(self, n):
        return self.E.rd(self.S, self.c.addr, n)

    def field(self, hi, lo):
        return extract(self.arg, hi, lo)


class OpBase(Contract):
    tus = [TU]
    fn = FN
    where = False         # breakpoint copy of the instruction possible
    uses_mem = 0          # size of the memory operand
    memw = False
    timeout = 30000
    use_init = "all"     # the dispatch table (a static that is never written)
    jump = False

    def __init__(self, op):
        self.op = op
        self.name = 'rvi' + op

    def stubs(self, Xc):
        return {'ExecutorRegVm::ExecError': exec_error, 'ExecutorRegVm::ExecCall': exec_call, 'ExecutorRegVm::ExecReturn': exec_return,
                'ExecutorRegVm::ExecNop': exec_nop, 'ExecutorRegVm::ExecConvertPtr': exec_convert,
                'VmIntPow': lambda E, st, a, I: vm_pow(32)(a[0], a[1]), 'VmLongPow': lambda E, st, a, I: vm_pow(64)(a[0], a[1])}

    # which register holds the base of the memory operand
    def base_reg(self):
        return self.rC

    def spec(self, v):
        raise NotImplementedError

    def setup(self, Xc):
        k = K()
        E = Xc.E
        self.Xc = Xc
        self.rA, self.rB, self.rC = Xc.int('rA', 8), Xc.int('rB', 8), Xc.int('rC', 8)
        self.arg = Xc.int('argument', 32)
        regs = Xc.obj('regs', NREG * 8)
        Xc.align['regs'] = 16
        Xc.align['code'] = Xc.align['brk'] = Xc.align['rvm'] = 16
        if Xc.concrete:
            one = bytes([k['rviReturn']]) + bytes(7)
            E.new_obj(Xc.st, 'code', NCODE * 8, ('raw', one * NCODE))
        else:
            E.new_obj(Xc.st, 'code', 1 << 36)
        self.cur = Ptr('code', CUR * 8)
        if self.where and Xc.choice('where', ['code', 'breakpoint']) == 'breakpoint':
            E.new_obj(Xc.st, 'brk', 16 * 8, ('raw', (bytes([k['rviReturn']]) + bytes(7)) * 16) if Xc.concrete else None)
            self.cur = Ptr('brk', CUR * 8)
        for f, n, val in (('code', 1, k['rvi' + self.op]), ('rA', 1, self.rA), ('rB', 1, self.rB), ('rC', 1, self.rC), ('argument', 4, self.arg)):
            E.wr(Xc.st, self.cur + k['OFF(RegVmCmd,%s)' % f], n, val)
        E.new_obj(Xc.st, 'rvm', k['sizeof(ExecutorRegVm)'], ('zero',) if Xc.concrete else None)
        E.wr(Xc.st, Ptr('rvm', k['OFF(ExecutorRegVm,codeBase)']), 8, Ptr('code', 0))
        if self.jump:
            # a jump to itself never leaves the instruction
            Xc.assume(ne(self.arg, CUR, 32))
            if Xc.concrete:
                Xc.assume(ult(self.arg, NCODE, 32))
            else:
                Xc.softs.append(z3.ULT(self.arg, NCODE))
        self.addr = None
        self.memsz = 0
        if not Xc.concrete:
            Xc.flatheap('flat')
            cb, co = self.cur.base, CUR * 8

            def hook(E, st, b, off, n):
                if b in ('code', 'brk'):
                    o = simp(off)
                    if b != cb or not (isc(o) and co <= o < co + 8):
                        st = st.copy()
                        st.events = st.events + (('next', b, o),)
                        raise StopPath(st)
            E.read_hook = hook
            E.flat_ok = self.flat_ok
        self.mem_setup(Xc)
        v = V(self, Xc, Xc.st)
        self.pre(Xc, v)
        if not Xc.concrete:
            for nm, r in (('vA', self.rA), ('vB', self.rB), ('vC', self.rC)):
                Xc.syms[nm] = (v.r64(r), 64, self.isfloat())
            if self.addr is not None and self.memsz in (1, 2, 4, 8):
                Xc.syms['mem'] = (v.mem(self.memsz), self.memsz * 8, self.isfloat())
        return [self.cur, regs, Ptr('rvm', 0), Ptr('code', 0)]

    def isfloat(self):
        return self.op[-1] in 'df' or self.op.endswith(('Float', 'Double')) or self.op in ('Dtoi', 'Dtol')

    def pre(self, Xc, v):
        pass

    def mem_setup(self, Xc):
        if not self.uses_mem:
            return
        E = Xc.E
        n = self.uses_mem
        self.memsz = n
        kind = Xc.choice('operand', ['memory', 'register'])
        r = self.base_reg()
        if kind == 'register':
            # operand inside the register file itself (how register operands are encoded)
            off = Xc.int('k', 64)
            Xc.assume(ule(off, NREG * 8, 64))
            Xc.assume(ule(add(off, zext(self.arg, 32, 64), 64), NREG * 8 - n, 64))
            E.wr(Xc.st, Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64))), 8, Ptr('regs', off))
            self.base = Ptr('regs', off)
            self.addr = Ptr('regs', simp(add(off, zext(self.arg, 32, 64), 64)))
            self.addr_t = None
            return
        b = E.rd(Xc.st, Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64))), 8)
        self.base = Ptr(None, b)
        a = simp(add(b, zext(self.arg, 32, 64), 64))
        self.addr = Ptr(None, a)
        self.heap(Xc, 'heap', a, b, n)

    def heap(self, Xc, name, a, b, n):
        """memory outside the register file at address a (base value b)"""
        if Xc.concrete:
            if b >= 0x10000:
                fl = Xc.values.get('flat', {})
                raw = bytes(fl.get((a + i) & M(64), fl.get('else', 0)) for i in range(n))
                if not 0x10000 <= a < (1 << 47) - n:
                    raise Unsupported('address cannot be mapped')
                Xc.E.new_obj(Xc.st, name, n, ('raw', raw))
                Xc.fixed[name] = a
                return Ptr(name, 0)
            return None
        lo = 1 << (33 if name == 'heap' else 34)
        Xc.softs.append(z3.And(z3.UGE(b, lo), z3.ULT(b, lo + 100000)))
        Xc.softs.append(z3.ULT(self.arg, 4096))
        return None

    def flat_ok(self, E, st, off, n, write):
        """memory is touched only at the operand, and only behind a checked pointer"""
        if self.addr is None or self.addr.base is not None:
            return False
        if write and not self.memw:
            return False
        d = simp(sub(off, self.addr.off, 64))
        return And(uge(self.base.off, 0x10000, 64), ule(n, self.memsz, 64), ule(d, simp(sub(self.memsz, n, 64)), 64))

    def nullbase(self, Xc):
        b = self.base
        v = Xc.E.p2i(b)
        return ult(v, 0x10000, 64)

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        v = V(self, Xc, E0)
        if self.addr is not None and self.addr.base is None and Xc.concrete:
            if self.base.off >= 0x10000:
                self.addr = Ptr('heap', 0)
        sp = self.spec(v)
        errs, writes, mw, nxt, evs = sp.get('errs', []), sp.get('regs', []), sp.get('mem', []), sp.get('next', 'seq'), sp.get('events', [])
        ev = list(F.events)
        err = [e for e in ev if e[0] == 'err']
        fin = [e for e in ev if e[0] in ('next', 'ret')]
        calls = [e for e in ev if e[0] in ('call', 'convert', 'nop')]
        other = [e for e in ev if e[0] not in ('err', 'next', 'ret', 'call', 'convert', 'nop')]
        yield 'no other effects', not other
        prev = []
        conds = {}
        for c, cat in errs:
            conds[cat] = Or(conds.get(cat, False), And(c, *[Not(p) for p in prev]))
            prev.append(c)
        anyerr = Or(*prev) if prev else False
        if err:
            yield 'stops with an error only when the operation is invalid', len(err) == 1 and anyerr
            yield 'error reports its cause', conds.get(err[0][1], False)
            yield 'error is raised at this instruction', And(err[0][2] == self.cur.base, eq(err[0][3], self.cur.off, 64))
            yield 'error result', False if ret is None else eq(ret, K()['rvrError'], 32)
            yield 'nothing executed after an error', not fin and not calls
            for nm, g in self.frame(Xc, E0, F, [], []):
                yield nm, g
            return
        yield 'invalid operation stops with an error', Not(anyerr)
        stop = False
        if callable(evs):
            ok, stop = evs(v, calls, ret, bool(fin))
            yield 'delegates to the callee with its operands', ok
        else:
            yield 'no delegated execution', not calls
        for nm, g in self.frame(Xc, E0, F, writes, mw, skip=bool(calls)):
            yield nm, g
        if stop:
            return
        if nxt is None:
            # the instruction itself hands over to ExecReturn
            okr = len(fin) == 1 and fin[0][0] == 'ret'
            yield 'returns through ExecReturn', okr and And(eq(fin[0][1], self.word(), 64), fin[0][2] == self.cur.base, eq(fin[0][3], self.cur.off, 64), fin[0][4] == 'regs', eq(fin[0][5], 0, 64))
            return
        if len(fin) != 1:
            yield 'continues with the next instruction', False
            return
        fb, fo = (fin[0][1], fin[0][2]) if fin[0][0] == 'next' else (fin[0][2], fin[0][3])
        if nxt == 'seq':
            yield 'continues with the next instruction', And(fb == self.cur.base, eq(fo, self.cur.off + 8, 64))
        else:
            b, o = nxt(v) if callable(nxt) else nxt
            if isinstance(b, list):
                yield 'control transfer target', Or(*[And(c, fb == bb, eq(fo, oo, 64)) for c, bb, oo in b])
            else:
                yield 'control transfer target', And(fb == b, eq(fo, o, 64))

    def word(self):
        k = K()
        fields = sorted([(k['OFF(RegVmCmd,code)'], 8, k['rvi' + self.op]), (k['OFF(RegVmCmd,rA)'], 8, self.rA), (k['OFF(RegVmCmd,rB)'], 8, self.rB),
                         (k['OFF(RegVmCmd,rC)'], 8, self.rC), (k['OFF(RegVmCmd,argument)'], 32, self.arg)])
        r = 0
        for off, w, val in fields:
            r = or_(r, shl(zext(val, w, 64), 8 * off, 64), 64)
        return simp(r)

    def frame(self, Xc, E0, F, writes, mw, skip=False):
        E = Xc.E
        S = State_copy(E0)
        loose = []
        nan = []
        for kind, r, val in writes:
            off = simp(mul(zext(r, 8, 64), 8, 64))
            if kind == 'i':
                E.wr(S, Ptr('regs', off), 4, val)
                loose.append(off)
            else:
                E.wr(S, Ptr('regs', off), 8, val)
                if kind == 'd' and Xc.concrete and isnan64(val):
                    nan.append(off)
        for p, n, val in mw:
            if callable(n):
                S.mem[p.base or E.flat] = n(E.obj(S, p.base or E.flat))
            else:
                E.wr(S, p, n, val)
                if Xc.concrete and n == 4 and isnan32(val) and self.op == 'StoreFloat':
                    nan.append(None)
        a, b = E.obj(S, 'regs'), E.obj(F, 'regs')

        def body(i):
            g = eq(simp(a.byte(i)), simp(b.byte(i)), 8)
            for off in loose:
                g = Or(g, ult(simp(sub(i, add(off, 4, 64), 64)), 4, 64))
            for off in nan:
                if off is not None:
                    g = Or(g, ult(sub(i, off, 64), 8, 64))
            return g
        yield 'registers hold the result and are otherwise unchanged', forall(Xc, 'regs', NREG * 8, body)
        for off in nan:
            if off is not None:
                yield 'result is a NaN', isnan64(b.read(off, 8))
        if Xc.concrete:
            for h in ('heap', 'heap2'):
                if h in S.mem:
                    x, y = E.obj(S, h), E.obj(F, h)
                    if None in nan:
                        yield 'memory result is a NaN', isnan32(y.read(0, 4))
                    else:
                        yield 'memory holds the result and is otherwise unchanged', forall(Xc, h, x.size, lambda i: eq(x.byte(i), y.byte(i), 8))
        else:
            x, y = S.mem[E.flat], F.mem[E.flat]
            if x is not y:
                i = E.fresh('sk_addr', 64)
                yield 'memory holds the result and is otherwise unchanged', eq(simp(x.byte(i)), simp(y.byte(i)), 8)
            else:
                yield 'memory holds the result and is otherwise unchanged', True
        for b in ('code', 'brk', 'rvm'):
            if b in E0.mem and F.mem[b] is not E0.mem[b]:
                if Xc.concrete:
                    yield b + ' unchanged', forall(Xc, b, E0.mem[b].size, lambda i, b=b: eq(E0.mem[b].byte(i), F.mem[b].byte(i), 8))
                else:
                    yield b + ' unchanged', unchanged(Xc, E0, F, b)


def State_copy(S):
    return S.copy()


def isnan64(v):
    return isc(v) and (v & M(63)) > (0x7ff << 52)


def isnan32(v):
    return isc(v) and (v & M(31)) > (0xff << 23)


# ---------------------------------------------------------------- semantics
class Load(OpBase):
    def __init__(self, op, n, conv, wide):
        super().__init__(op)
        self.uses_mem = n
        self.conv, self.wide = conv, wide

    def spec(self, v):
        z = self.nullbase(v.X)
        return dict(errs=[(z, 'null')], regs=[(self.wide, v.A, self.conv(v.mem(self.uses_mem)))] if z is not True else [])


class Store(OpBase):
    memw = True

    def __init__(self, op, n, conv, src):
        super().__init__(op)
        self.uses_mem = n
        self.conv, self.src = conv, src

    def spec(self, v):
        z = self.nullbase(v.X)
        if z is True:
            return dict(errs=[(z, 'null')])
        return dict(errs=[(z, 'null')], mem=[(self.addr, self.uses_mem, self.conv(v.reg(v.A, self.src)))])


class Reg(OpBase):
    """register-only operation"""

    def __init__(self, op, fn):
        super().__init__(op)
        self.f = fn

    def spec(self, v):
        return self.f(v)


class Bin(OpBase):
    """rA = rB op [rC + argument]"""

    def __init__(self, op, n, lhs, out, fn, errs=()):
        super().__init__(op)
        self.uses_mem = n
        self.lhs, self.out, self.f, self.extra = lhs, out, fn, errs

    def spec(self, v):
        z = self.nullbase(v.X)
        errs = [(z, 'null')]
        if z is True:
            return dict(errs=errs)
        m = v.mem(self.uses_mem)
        l = v.reg(v.B, self.lhs)
        for c, cat in self.extra:
            errs.append((c(l, m), cat))
        if any(c is True for c, _ in errs):
            return dict(errs=errs)
        return dict(errs=errs, regs=[(self.out, v.A, self.f(l, m))])


def ident(x):
    return x


class SetRange(OpBase):
    memw = True
    cost = 3

    def __init__(self, kind, n, src, conv):
        super().__init__('SetRange')
        self.name = 'rviSetRange(%s)' % kind
        self.kind, self.n, self.src, self.conv = kind, n, src, conv

    def mem_setup(self, Xc):
        E = Xc.E
        Xc.assume(eq(self.rB, K()['rvsr' + self.kind], 8))
        b = E.rd(Xc.st, Ptr('regs', simp(mul(zext(self.rC, 8, 64), 8, 64))), 8)
        # the code generator only emits SetRange for the address of a local array
        Xc.assume(uge(b, 0x10000, 64))
        Xc.assume(ult(b, 1 << 47, 64))
        self.base = Ptr(None, b)
        self.addr = Ptr(None, b)
        sz = simp(mul(zext(self.arg, 32, 64), self.n, 64))
        self.memsz = sz
        if Xc.concrete and sz > 1 << 20:
            raise Unsupported('range too large to replay')
        self.heap(Xc, 'heap', b, b, sz)
        if Xc.concrete and sz == 0:
            pass

    def flat_ok(self, E, st, off, n, write):
        if not write:
            return False
        d = simp(sub(off, self.addr.off, 64))
        return And(ule(n, self.memsz, 64), ule(d, simp(sub(self.memsz, n, 64)), 64))

    def spec(self, v):
        val = self.conv(v.reg(v.A, self.src))
        n = self.n
        sz = self.memsz
        p = Ptr('heap', 0) if v.X.concrete else self.addr

        def upd(o):
            def fn(d):
                r = urem(d, n, 64)
                return extract(lshr(val, trunc(mul(r, 8, 64), 64, 8 * n) if n < 8 else mul(r, 8, 64), 8 * n), 7, 0) if n > 1 else val
            return o.write_block(p.off, sz, fn)
        return dict(mem=[(p, upd, None)])

    def isfloat(self):
        return self.kind in ('Double', 'Float')


class MemCopy(OpBase):
    memw = True
    check_overlap = False
    cost = 2

    def mem_setup(self, Xc):
        E = Xc.E
        rd = lambda r: E.rd(Xc.st, Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64))), 8)
        d, s = rd(self.rA), rd(self.rC)
        n = zext(self.arg, 32, 64)
        self.base = Ptr(None, s)
        self.dst, self.src, self.addr, self.memsz = d, s, None, 0
        Xc.assume(And(ult(d, 1 << 47, 64), ult(s, 1 << 47, 64)))
        # source and destination are the same object or do not overlap
        Xc.assume(Or(eq(d, s, 64), ule(add(d, n, 64), s, 64), ule(add(s, n, 64), d, 64)))
        self.n = n
        if Xc.concrete:
            if n > 1 << 20:
                raise Unsupported('copy too large to replay')
            for nm, a in (('heap', s), ('heap2', d)):
                if a < 0x10000 or (nm == 'heap2' and d == s):
                    continue
                if n == 0:
                    E.new_obj(Xc.st, nm, 0, ('raw', b''))
                    continue
                self.heap(Xc, nm, a, a, n)
        else:
            self.heap(Xc, 'heap', s, s, n)
            Xc.softs.pop()
            self.heap(Xc, 'heap2', d, d, n)

    def flat_ok(self, E, st, off, n, write):
        b = self.dst if write else self.src
        d = simp(sub(off, b, 64))
        return And(uge(self.dst, 0x10000, 64), uge(self.src, 0x10000, 64), ule(n, self.n, 64), ule(d, simp(sub(self.n, n, 64)), 64))

    def spec(self, v):
        errs = [(ult(self.dst, 0x10000, 64), 'null'), (ult(self.src, 0x10000, 64), 'null')]
        if any(simp(c) is True for c, _ in errs):
            return dict(errs=errs)
        if v.X.concrete:
            if self.n == 0:
                return dict(errs=errs)
            sp = Ptr('heap', 0)
            dp = Ptr('heap' if self.dst == self.src else 'heap2', 0)
        else:
            sp, dp = Ptr(None, self.src), Ptr(None, self.dst)
        so = v.E.obj(v.S, sp.base or v.E.flat)
        return dict(errs=errs, mem=[(dp, lambda o: o.write_block(dp.off, self.n, lambda d: so.byte(simp(add(sp.off, d, 64)))), None)])


def contracts_all():
    out = []
    sx = lambda n, w=32: (lambda x: sext(x, n * 8, w))
    out += [Load('LoadByte', 1, sx(1), 'i'), Load('LoadWord', 2, sx(2), 'i'), Load('LoadDword', 4, ident, 'i'), Load('LoadLong', 8, ident, 'q'),
            Load('LoadFloat', 4, fpext, 'd'), Load('LoadDouble', 8, ident, 'q')]
    out += [Reg('LoadImm', lambda v: dict(regs=[('i', v.A, v.arg)]))]
    out += [Store('StoreByte', 1, ident, 1), Store('StoreWord', 2, ident, 2), Store('StoreDword', 4, ident, 4), Store('StoreLong', 8, ident, 8),
            Store('StoreFloat', 4, fptrunc, 8), Store('StoreDouble', 8, ident, 8)]
    out += [Reg('Combinedd', lambda v: dict(regs=[('q', v.A, or_(shl(zext(v.r32(v.C), 32, 64), 32, 64), zext(v.r32(v.B), 32, 64), 64))])),
            Reg('Breakupdd', breakup),
            Reg('Mov', lambda v: dict(regs=[('q', v.A, v.r64(v.C))])),
            Reg('MovMult', movmult),
            Reg('Dtoi', lambda v: dict(regs=[('i', v.A, fptosi(v.r64(v.C), 64, 32))])),
            Reg('Dtol', lambda v: dict(regs=[('q', v.A, fptosi(v.r64(v.C), 64, 64))])),
            Reg('Dtof', lambda v: dict(regs=[('i', v.A, fptrunc(v.r64(v.C)))])),
            Reg('Itod', lambda v: dict(regs=[('q', v.A, itofp(v.r32(v.C), 32, 64, True))])),
            Reg('Ltod', lambda v: dict(regs=[('q', v.A, itofp(v.r64(v.C), 64, 64, True))])),
            Reg('Itol', lambda v: dict(regs=[('q', v.A, sext(v.r32(v.C), 32, 64))])),
            Reg('Ltoi', lambda v: dict(regs=[('i', v.A, v.r32(v.C))])),
            Index('Index'),
            Reg('GetAddr', lambda v: dict(regs=[('q', v.A, add(v.r64(v.C), zext(v.arg, 32, 64), 64))]))]
    for k, n, s, c in (('Double', 8, 8, ident), ('Float', 4, 8, fptrunc), ('Long', 8, 8, ident), ('Int', 4, 4, ident), ('Short', 2, 2, ident), ('Char', 1, 1, ident)):
        out.append(SetRange(k, n, s, c))
    out.append(MemCopy('MemCopy'))
    out += [Jump('Jmp', lambda v: True), Jump('Jmpz', lambda v: eq(v.r32(v.C), 0, 32)), Jump('Jmpnz', lambda v: ne(v.r32(v.C), 0, 32))]
    out += [Call('Call'), Call('CallPtr'), Reg('Return', lambda v: dict(next=None)), NopOp('Nop'), Convert('ConvertPtr')]
    for sfx, w in (('', 32), ('l', 64)):
        n = w // 8
        k = 'i' if w == 32 else 'q'
        out.append(Reg('AddImm' + sfx, lambda v, w=w, k=k, n=n: dict(regs=[(k, v.A, add(v.reg(v.B, n), sext(v.arg, 32, w), w))])))
        z = lambda l, m, w=w: eq(m, 0, w)
        ov = lambda l, m, w=w: And(eq(m, M(w), w), eq(l, 1 << (w - 1), w))
        bins = [('Add', add, ()), ('Sub', sub, ()), ('Mul', mul, ()), ('Div', sdiv, ((z, 'div'), (ov, 'overflow'))), ('Mod', srem, ((z, 'div'), (ov, 'overflow'))),
                ('BitAnd', and_, ()), ('BitOr', or_, ()), ('BitXor', xor, ())]
        for nm, f, e in bins:
            out.append(Bin(nm + sfx, n, n, k, lambda l, m, f=f, w=w: f(l, m, w), e))
        out.append(Bin('Pow' + sfx, n, n, k, lambda l, m, w=w: vm_pow(w)(m, l)))
        # shift counts outside [0, width) are not defined by the language
        for nm, f in (('Shl', shl), ('Shr', ashr)):
            c = Bin(nm + sfx, n, n, k, lambda l, m, f=f, w=w: f(l, m, w))
            c.pre = lambda Xc, v, c=c, w=w: shift_pre(c, Xc, v, w)
            out.append(c)
        for nm, f in (('Less', slt), ('Greater', sgt), ('Lequal', sle), ('Gequal', sge), ('Equal', eq), ('Nequal', ne)):
            out.append(Bin(nm + sfx, n, n, 'i', lambda l, m, f=f, w=w: b2i(f(l, m, w), 32)))
        out.append(Reg('Neg' + sfx, lambda v, w=w, k=k, n=n: dict(regs=[(k, v.A, sub(0, v.reg(v.C, n), w))])))
        out.append(Reg('BitNot' + sfx, lambda v, w=w, k=k, n=n: dict(regs=[(k, v.A, xor(v.reg(v.C, n), M(w), w))])))
        out.append(Reg('LogNot' + sfx, lambda v, w=w, n=n: dict(regs=[('i', v.A, b2i(eq(v.reg(v.C, n), 0, w), 32))])))
    for nm, f in (('Add', 'fadd'), ('Sub', 'fsub'), ('Mul', 'fmul'), ('Div', 'fdiv')):
        out.append(Bin(nm + 'd', 8, 8, 'd', lambda l, m, f=f: fop(f, [l, m], 64)))
        out.append(Bin(nm + 'f', 4, 8, 'd', lambda l, m, f=f: fop(f, [l, fpext(m)], 64)))
    from vc import builtins
    out.append(Bin('Powd', 8, 8, 'd', lambda l, m: libm('pow', l, m)))
    out.append(Bin('Modd', 8, 8, 'd', lambda l, m: libm('fmod', l, m)))
    for nm, p in (('Less', 'olt'), ('Greater', 'ogt'), ('Lequal', 'ole'), ('Gequal', 'oge'), ('Equal', 'oeq'), ('Nequal', 'une')):
        out.append(Bin(nm + 'd', 8, 8, 'i', lambda l, m, p=p: b2i(fcmp(p, l, m, 64), 32)))
    out.append(Reg('Negd', lambda v: dict(regs=[('d', v.A, fneg(v.r64(v.C), 64))])))
    return out


def libm(name, l, m):
    from vc import builtins
    return builtins.LIB[name](None, None, [l, m], None)


def shift_pre(c, Xc, v, w):
    if c.addr is None:
        return
    if Xc.concrete:
        if Xc.E.p2i(c.base) < 0x10000:
            return
        m = Xc.E.rd(Xc.st, Ptr('heap', 0) if c.addr.base is None else c.addr, w // 8)
    else:
        m = v.mem(w // 8)
    Xc.assume(Or(c.nullbase(Xc), ult(m, w, w)))


def breakup(v):
    c = v.r64(v.C)
    # rA receives the high half first; when rA and rC coincide the low half is read afterwards (the high half of the register is kept)
    same = eq(v.A, v.C, 8)
    lo = trunc(c, 64, 32)
    hi = extract(c, 63, 32)
    return dict(regs=[('i', v.A, hi), ('i', v.B, ite(same, hi, lo, 32))])


class MoveState:
    pass


def movmult(v):
    E = v.E
    S = v.S.copy()
    moves = [(v.A, v.C), (v.field(31, 24), v.field(23, 16)), (v.field(15, 8), v.field(7, 0))]
    out = []
    for d, s in moves:
        val = E.rd(S, Ptr('regs', simp(mul(zext(s, 8, 64), 8, 64))), 8)
        E.wr(S, Ptr('regs', simp(mul(zext(d, 8, 64), 8, 64))), 8, val)
        out.append(('q', d, val))
    return dict(regs=out)


class Index(OpBase):
    def pre(self, Xc, v):
        # element count and size describe an array that exists: byte offsets below 2^31
        idx = zext(v.r32(v.B), 32, 64)
        Xc.assume(ult(mul(idx, zext(v.field(15, 0), 16, 64), 64), 1 << 31, 64))

    def spec(self, v):
        i = v.r32(v.B)
        n = v.r32(v.field(23, 16))
        return dict(errs=[(uge(i, n, 32), 'bounds')],
                    regs=[('q', v.A, add(v.r64(v.C), mul(zext(i, 32, 64), zext(v.field(15, 0), 16, 64), 64), 64))])


class Jump(OpBase):
    where = True
    jump = True

    def __init__(self, op, cond):
        super().__init__(op)
        self.cond = cond

    def spec(self, v):
        c = self.cond(v)
        t = simp(mul(zext(v.arg, 32, 64), 8, 64))
        return dict(next=(([(c, 'code', t), (Not(c), self.cur.base, self.cur.off + 8)]), 0))


class Call(OpBase):
    def spec(self, v):
        if self.op == 'Call':
            mc = or_(or_(shl(zext(v.A, 8, 32), 16, 32), shl(zext(v.B, 8, 32), 8, 32), 32), zext(v.C, 8, 32), 32)
            fid = v.arg
            errs = []
        else:
            mc = v.arg
            fid = v.r32(v.C)
            errs = [(eq(fid, 0, 32), 'fptr')]

        def evs(v, calls, ret, cont):
            if len(calls) != 1 or calls[0][0] != 'call':
                return False, False
            e = calls[0]
            ok = And(eq(e[1], mc, 32), eq(e[2], fid, 32), e[3] == self.cur.base, eq(e[4], self.cur.off, 64), e[5] == 'regs', eq(e[6], 0, 64))
            okv = v.X.E.ndvals.get('nd:callok#0', False) if v.X.concrete else z3.Bool('nd:callok#0')
            if cont:
                return And(ok, okv), False
            return And(ok, Not(okv), False if ret is None else eq(ret, K()['rvrError'], 32)), True
        return dict(errs=errs, events=evs)


class Convert(OpBase):
    def spec(self, v):
        def evs(v, calls, ret, cont):
            if len(calls) != 1 or calls[0][0] != 'convert':
                return False, False
            e = calls[0]
            ok = And(eq(e[1], self.word(), 64), e[2] == self.cur.base, eq(e[3], self.cur.off, 64), e[4] == 'regs', eq(e[5], 0, 64))
            okv = v.X.E.ndvals.get('nd:convok#0', False) if v.X.concrete else z3.Bool('nd:convok#0')
            if cont:
                return And(ok, okv), False
            return And(ok, Not(okv), False if ret is None else eq(ret, K()['rvrError'], 32)), True
        return dict(events=evs)


class NopOp(OpBase):
    def spec(self, v):
        def nd(n, w):
            if v.X.concrete:
                return int(v.X.E.ndvals.get(n, 0))
            return z3.Bool(n) if w == 1 else z3.BitVec(n, w)
        pos = simp(mul(zext(and_(nd('nd:noppos#1', 16), NCODE - 1, 16), 16, 64), 8, 64))
        okv = And(nd('nd:nopok#0', 1), ne(pos, CUR * 8, 64))
        if v.X.concrete:
            okv = bool(okv)

        def evs(v, calls, ret, cont):
            if len(calls) != 1 or calls[0][0] != 'nop':
                return False, False
            e = calls[0]
            ok = And(eq(e[1], self.word(), 64), e[2] == self.cur.base, eq(e[3], self.cur.off, 64), e[4] == 'regs', eq(e[5], 0, 64))
            if cont:
                return And(ok, okv), False
            return And(ok, Not(okv), False if ret is None else eq(ret, K()['rvrError'], 32)), True
        return dict(events=evs, next=('code', pos))


MEMOPS = ('Load', 'Store', 'Combinedd', 'Breakupdd', 'Mov', 'Index', 'GetAddr', 'SetRange', 'MemCopy')
CTLOPS = ('Jmp', 'Jmpz', 'Jmpnz', 'Call', 'CallPtr', 'Return', 'Nop', 'ConvertPtr')


def group(c):
    if c.op in CTLOPS:
        return 'ctl'
    if c.op.startswith(MEMOPS):
        return 'mem'
    return 'arith'


def contracts_arith():
    return [c for c in contracts_all() if group(c) == 'arith'] + [PowContract(32), PowContract(64)]


def contracts_mem():
    return [c for c in contracts_all() if group(c) == 'mem']


def contracts_ctl():
    return [c for c in contracts_all() if group(c) == 'ctl']


class PowContract(Contract):
    """integer power: number multiplied by itself power times, modulo 2^w"""
    tus = ['Executor_Common.cpp']
    cut_all = True

    def __init__(self, w):
        self.w = w
        self.fn = 'VmIntPow' if w == 32 else 'VmLongPow'
        self.name = self.fn
        self.ip = UF('ipow%d' % w, [w, w], w)

    def setup(self, Xc):
        w = self.w
        self.p, self.n = Xc.int('power', w), Xc.int('number', w)
        Xc.E.mul_uf = True
        return [self.p, self.n]

    def templates(self, E, f, header, view):
        ph = [(a, w) for a, w, i, c, s in view.phis if w == self.w]
        names = [a for a, _ in ph]
        import itertools
        out = []
        for r, n, p in itertools.permutations(names, 3):
            um = UF('umul%d' % self.w, [self.w, self.w], self.w)
            B = lambda x: bv(x, self.w)

            def fn(v, r=r, n=n, p=p):
                d = {a: c for a, w, i, c, s in v.phis}
                prod = self.ip(B(d[n]), B(d[p])) if isc(d[r]) and d[r] == 1 else um(B(d[r]), self.ip(B(d[n]), B(d[p])))
                return And(prod == self.ip(B(self.n), B(self.p)), sge(d[p], 0, self.w))

            def facts(v, r=r, n=n, p=p):
                # ipow(n, p) = n^p;  n^(2q) = (n*n)^q and n^(2q+1) = n * (n*n)^q;  multiplication modulo 2^w is associative with unit 1
                d = {a: c for a, w, i, c, s in v.phis}
                R, N, P = B(d[r]), B(d[n]), B(d[p])
                ip = self.ip
                half = ip(um(N, N), z3.LShR(P, 1))
                return z3.And(ip(N, 0) == 1, um(R, B(1)) == R, um(N, R) == um(R, N), um(um(N, R), half) == um(R, um(N, half)), um(um(R, N), half) == um(R, um(N, half)),
                              z3.Implies(P > 0, ip(N, P) == z3.If(P & 1 == 1, um(N, half), half)))
            out.append(('pow %s %s %s' % (r, n, p), fn, facts))
        return out

    def post(self, Xc, E0, F, ret):
        w = self.w
        if Xc.concrete:
            yield 'integer power', eq(ret, vm_pow(w)(self.p, self.n), w)
            return
        neg = ite(eq(self.n, 1, w), 1, ite(eq(self.n, M(w), w), ite(eq(and_(self.p, 1, w), 1, w), M(w), 1, w), 0, w), w)
        yield 'integer power', eq(ret, ite(slt(self.p, 0, w), neg, self.ip(self.n, self.p), w), w)


def contracts():
    return contracts_arith() + contracts_mem() + contracts_ctl()


def prepare():
    K()
