"""JIT code generators: one contract per GenCodeCmd function of CodeGenRegVm_X86.cpp.

The instructions requested from the emit layer are executed on the x86-64 reference machine of x86.py from an arbitrary machine
state; the effect has to be the one the interpreter contract of the same opcode specifies (interp.py)."""
import copy
import re
import ctypes
from .common import *
from . import interp, x86
from .x86 import R, ALLOC, M86, Run, RegFile, bits
from .interp import V, isnan64, isnan32

TUS = ['CodeGenRegVm_X86.cpp', 'CodeGen_X86.cpp']
NCONST = 1 << 20
_k = None
DBG = 0


def K():
    global _k
    if _k is None:
        flds = 'ctx.currFreeReg ctx.lockedRegA ctx.lockedRegB ctx.currFreeXmmReg ctx.lockedXmmRegA ctx.lockedXmmRegB ctx.genReg ctx.x86LookBehind ctx.x86Op labelCount exFunctions exTypes exRegVmConstants exRegVmRegKillInfo vmState currInstructionPos currInstructionRegKillOffset currFunctionId x86rvm'.split()
        vs = '''ctx callWrap checkedReturnWrap convertPtrWrap errorOutOfBoundsWrap errorNoReturnWrap errorInvalidFunctionPointer dataStackBase dataStackTop dataStackEnd callStackBase
callStackTop callStackEnd regFileLastPtr regFileLastTop tempStackArrayBase callInstructionPos instAddress functionAddress x64PowWrap'''.split()
        ex = ['sizeof(CodeGenRegVmContext)', 'sizeof(CodeGenRegVmStateContext)', 'sizeof(x86Argument)', 'sizeof(x86Instruction)', 'sizeof(CodeGenRegVmCallStackEntry)', 'OFF(x86Argument,type)',
              'rvrrGlobals', 'rvrrFrame', 'rvrrConstants', 'rvrrRegisters', 'rvrrCount', 'rvcFull', 'rvcInt', 'rvcDouble', 'rvcLong', 'rvrVoid', 'rvrError']
        ex += ['sizeof(RegVmCmd)'] + ['OFF(x86Instruction,%s)' % f for f in ('name', 'argA', 'argB')] + ['OFF(x86Argument,%s)' % f for f in 'type reg num ptrSize ptrBase ptrIndex ptrMult ptrNum'.split()]
        ex += ['OFF(CodeGenRegVmContext,%s)' % f for f in flds] + ['OFF(CodeGenRegVmStateContext,%s)' % f for f in vs]
        _k = build.probe(['stdafx.h', 'InstructionTreeRegVm.h', 'CodeGenRegVm_X86.h'], ex)
    return _k


def off(t, f):
    return K()['OFF(%s,%s)' % (t, f)]


def cx(f):
    return off('CodeGenRegVmContext', f)


def vs(f):
    return off('CodeGenRegVmStateContext', f)


def event(st, *e):
    st.events = st.events + (e,)


def parse_types(sig):
    a = sig[sig.index('(') + 1:sig.rindex(')')]
    return [x.strip() for x in a.split(',')] if a else []


def op_stub(name, types):
    toks = name.split('_')[2:]

    def fn(E, st, a, I):
        vals = list(a[2:])
        ts = types[2:]
        ops = []
        for t in toks:
            if t == 'REG':
                ops.append(('x' if ts[0] == 'x86XmmReg' else 'r', vals[0]))
                vals, ts = vals[1:], ts[1:]
            elif t == 'NUM':
                ops.append(('i', vals[0], 32))
                vals, ts = vals[1:], ts[1:]
            elif t == 'NUM64':
                ops.append(('i', vals[0], 64))
                vals, ts = vals[1:], ts[1:]
            elif t == 'LABEL':
                ops.append(('l', vals[0]))
                inv, lng = vals[1], vals[2]
                event(st, 'op', a[1], ops, bool(lng), bool(inv))
                return None
            elif t in ('RPTR', 'ADDR'):
                none = R('NONE')
                if t == 'ADDR' or ts[1] != 'x86Reg':
                    ops.append(('m', vals[0], none, 1, none, vals[1]))
                    n = 2
                elif len(ts) > 3 and ts[2] == 'int':
                    ops.append(('m', vals[0], vals[1], vals[2], vals[3], vals[4]))
                    n = 5
                else:
                    ops.append(('m', vals[0], none, 1, vals[1], vals[2]))
                    n = 3
                vals, ts = vals[n:], ts[n:]
            else:
                raise Unsupported('emit function ' + name)
        if vals:
            raise Unsupported('emit function ' + name)
        event(st, 'op', a[1], ops)
        nd = st.ghost.get('nodep')
        if nd is not None and any(o[0] == 'r' and possible(simp(o[1]), nd) for o in ops):
            st.ghost['nodep'] = None
        return None
    return fn




def mul_lemmas(ts):
    """instances of x*0 = 0 and x*1 = x for the products in the terms"""
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            todo.extend(t.children())
            if t.decl().name().startswith('umul'):
                a, b = t.children()
                for x, y in ((a, b), (b, a)):
                    yield z3.Implies(x == 0, t == 0)
                    yield z3.Implies(x == 1, t == y)


def possible(t, v):
    """may the term have this value (syntactic)"""
    if isc(t):
        return t == v
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return possible(t.arg(1), v) or possible(t.arg(2), v)
    if z3.is_bv_value(t):
        return t.as_long() == v
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        for c in reversed(t.children()):
            if not possible(c, v & M(c.size())):
                return False
            v >>= c.size()
    return True


def find_stub(cls):
    def fn(E, st, a, I):
        k = x86.K()
        n = st.ghost.get('find', 0)
        st.ghost['find'] = n + 1
        ok = ndbool(E, st, 'found')
        r8 = interp.ndint(E, st, 'findreg', 8)
        none = k['rRegCount' if cls == 'r' else 'rXmmRegCount']
        if not isc(a[1]):
            raise Unsupported('symbolic operand size')
        mem = ('m', a[1], a[2], a[3], a[4], a[5])
        w = bits(a[1])
        r = zext(r8, 8, 32)
        if E.concrete_map is not None:
            if not ok:
                return none
            event(st, 'find', cls, r, mem, w, None)
            return r
        s2 = st.copy()
        nodep = s2.ghost.get('nodep')
        c = [ok]
        if cls == 'r':
            c.append(z3.Or([r8 == R(x) for x in ALLOC]))
            if nodep is not None:
                # nothing depends on the register any more; it can only be found through its own description
                ty = E.rd(s2, Ptr('ctx', simp(add(cx('ctx.genReg') + off('x86Argument', 'type'), mul(zext(r, 32, 64), K()['sizeof(x86Argument)'], 64), 64))), 4)
                c.append(bz(Or(ne(r, nodep, 32), eq(ty, k['x86Argument::argPtr'], 32))))
        else:
            c.append(z3.ULT(r8, 16))
        s2.pc = s2.pc + tuple(c)
        event(s2, 'find', cls, r, mem, w, None)
        st.pc = st.pc + (z3.Not(ok),)
        return [(s2, r), (st, none)]
    return fn


def bz(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def killset(E, st, which):
    return lambda d: ne(E.obj(st, which).byte(lshr(d, 3, 64)), 0, 8)


def emit_stubs(Xc):
    out = {}
    names = [n for m in map(build.module, TUS) for n in list(m.functions) + list(m.declares) if 'EMIT' in n or 'CodeGenGenericContext' in n]
    names = list(dict.fromkeys(names))
    for n, d in build.demangle(names).items():
        if '(' not in d:
            continue
        base = d[:d.index('(')]
        ts = parse_types(d)
        if base == 'EMIT_LABEL':
            out[d] = lambda E, st, a, I: event(st, 'label', a[1], a[2])
        elif base in ('EMIT_COMMENT', 'EMIT_REG_KILL'):
            out[d] = lambda E, st, a, I: None
        elif base == 'EMIT_REG_READ':
            cls = 'x' if ts[1] == 'x86XmmReg' else 'r'
            out[d] = lambda E, st, a, I, cls=cls: event(st, 'read', (cls, a[1]))
        elif base.startswith('EMIT_OP'):
            out[d] = op_stub(base, ts)
        elif base.endswith('::FindRegAtMemory'):
            out[d] = find_stub('r')
        elif base.endswith('::FindXmmRegAtMemory'):
            out[d] = find_stub('x')
        elif base.endswith('::KillEarlyUnreadRegVmRegisters'):
            out[d] = lambda E, st, a, I: kill(E, st, a, 'killE')
        elif base.endswith('::KillLateUnreadRegVmRegisters'):
            out[d] = lambda E, st, a, I: kill(E, st, a, 'killL')
        elif base.endswith('::IsLastRegVmRegisterUse'):
            out[d] = lambda E, st, a, I: ndbool(E, st, 'last')
        elif base.endswith(('::MemInvalidate', '::InvalidateAddressValue')):
            out[d] = lambda E, st, a, I: event(st, 'memcache')
        elif base.endswith('::InvalidateDependand') and 'x86Reg' in ts[0]:
            out[d] = nodep
    return out


def nodep(E, st, a, I):
    st.ghost['nodep'] = a[1]
    return None


def kill(E, st, a, which):
    p = E.pp(a[1])
    event(st, 'killarg', p.base, p.off)
    o = E.obj(st, which)
    event(st, 'kill', lambda d: ne(o.byte(simp(lshr(d, 3, 64))), 0, 8), which)
    return None


def fn_name(E, v, Xc):
    """the function a code pointer denotes"""
    v = E.i2p(v)
    if isinstance(v, Ptr) and v.base and v.base.startswith('fn:'):
        return v.base[3:]
    if E.concrete_map is not None:
        a = v.off if isinstance(v, Ptr) else v

        class DI(ctypes.Structure):
            _fields_ = [('f', ctypes.c_char_p), ('b', ctypes.c_void_p), ('s', ctypes.c_char_p), ('sa', ctypes.c_void_p)]
        di = DI()
        if ctypes.CDLL(None).dladdr(ctypes.c_void_p(a), ctypes.byref(di)) and di.s:
            return di.s.decode()
    return None


SAVED = 'RBX RSP RBP R12 R13 R14 R15'.split()


class JitOp(Contract):
    tus = TUS
    use_init = 'all'
    timeout = 30000
    check_overlap = False
    budget = 120
    abstract = True
    # which of rA, rB, rC name plain VM registers
    regs = 'ABC'

    def __init__(self, ob, fn=None):
        self.ob = ob
        self.fn = '%s(CodeGenRegVmContext&, RegVmCmd)' % (fn or 'GenCodeCmd' + ob.op)
        self.name = 'GenCodeCmd' + ob.name[3:]

    def stubs(self, Xc):
        return emit_stubs(Xc)

    def operand_kinds(self):
        if self.ob.uses_mem:
            if self.ob.name.startswith('rviLoad') or not isinstance(self.ob, (interp.Load, interp.Store)):
                return ['pointer', 'frame', 'constants', 'registers']
            return ['pointer', 'frame']
        return [None]

    def setup(self, Xc):
        k = K()
        E = Xc.E
        ob = self.ob
        ob.Xc = Xc
        ob.cur = Ptr('code', 0)
        ob.addr = ob.addr_t = None
        ob.memsz = 0
        ob.base = None
        self.kind = Xc.choice('operand', self.operand_kinds()) if len(self.operand_kinds()) > 1 else self.operand_kinds()[0]
        ob.rA, ob.rB, ob.rC, ob.arg = Xc.int('rA', 8), Xc.int('rB', 8), Xc.int('rC', 8), None
        aw = {'pointer': 16, 'frame': 16, 'constants': 15, 'registers': 11, None: 32}[self.kind]
        ob.arg = simp(zext(Xc.int('argument', aw), aw, 32))
        if self.kind in ('frame', 'constants', 'registers'):
            ob.rC = k['rvrr' + self.kind.capitalize()]
        regs = Xc.obj('regs', 2048)
        ctx = Xc.obj('ctx', k['sizeof(CodeGenRegVmContext)'])
        vmstate = Xc.obj('vmstate', k['sizeof(CodeGenRegVmStateContext)'])
        consts = Xc.obj('consts', NCONST if not Xc.concrete else 1 << 16)
        Xc.obj('kill', 1 << 20 if not Xc.concrete else 1 << 16)
        for n in ('regs', 'ctx', 'vmstate', 'consts', 'kill'):
            Xc.align[n] = 16
        Xc.obj('killE', 256)
        Xc.obj('killL', 256)
        if not Xc.concrete:
            Xc.flatheap('flat')
        self.pos = Xc.int('pos', 32)
        Xc.assume(ult(self.pos, 1 << 24, 32))
        self.label = Xc.int('label', 32)
        Xc.assume(ult(self.label, 1 << 24, 32))
        killoff = Xc.int('killoff', 32)
        Xc.assume(ult(killoff, 1 << 15, 32))
        cur = Xc.int('currFreeReg', 32)
        Xc.assume(ult(cur, 8, 32))
        cxm = Xc.int('currFreeXmmReg', 32)
        Xc.assume(ult(cxm, 16, 32))
        kx = x86.K()
        for f, n, v in (('vmState', 8, vmstate), ('exRegVmConstants', 8, consts), ('exRegVmRegKillInfo', 8, Ptr('kill', 0)), ('currInstructionPos', 4, self.pos), ('labelCount', 4, self.label),
                        ('currInstructionRegKillOffset', 4, killoff), ('ctx.currFreeReg', 4, cur), ('ctx.currFreeXmmReg', 4, cxm), ('ctx.lockedRegA', 4, kx['rRegCount']), ('ctx.lockedRegB', 4, kx['rRegCount']),
                        ('ctx.lockedXmmRegA', 4, kx['rXmmRegCount']), ('ctx.lockedXmmRegB', 4, kx['rXmmRegCount'])):
            E.wr(Xc.st, Ptr('ctx', cx(f)), n, v)
        self.killoff = killoff
        self.plain_regs(Xc)
        self.operand(Xc)
        E.flat_ok = lambda E, st, off, n, write: False
        self.more(Xc)
        v = V(ob, Xc, Xc.st)
        ob.pre(Xc, v)
        for nm, r in (('vA', ob.rA), ('vB', ob.rB), ('vC', ob.rC)):
            if not Xc.concrete:
                Xc.syms[nm] = (v.r64(r), 64, ob.isfloat())
        w = interp.OpBase.word(ob)
        return [ctx, w]

    def more(self, Xc):
        pass

    def plain_regs(self, Xc):
        n = K()['rvrrCount']
        for c in self.regs:
            r = getattr(self.ob, 'r' + c)
            if c == 'C' and self.kind is not None:
                continue
            Xc.assume(uge(r, n, 8))

    def operand(self, Xc):
        """memory operand [rC + argument]"""
        ob = self.ob
        E = Xc.E
        k = K()
        n = ob.uses_mem
        frame = Xc.int('frame', 64)
        Xc.assume(And(uge(frame, 0x10000, 64), ult(frame, 1 << 46, 64)))
        self.frame = frame
        if not n:
            return
        ob.memsz = n
        if self.kind == 'registers':
            Xc.assume(ule(ob.arg, 2048 - n, 32))
            Xc.assume(eq(and_(ob.arg, 7, 32), 0, 32))
            ob.base = Ptr('regs', 0)
            ob.addr = Ptr('regs', simp(zext(ob.arg, 32, 64)))
            Xc.assume(uge(ob.arg, 8 * k['rvrrCount'], 32))
        elif self.kind == 'constants':
            Xc.assume(eq(and_(ob.arg, 3, 32), 0, 32))
            ob.base = Ptr('consts', 0)
            ob.addr = Ptr('consts', simp(zext(ob.arg, 32, 64)))
        else:
            if self.kind == 'pointer':
                for r in ('Frame', 'Constants', 'Registers'):
                    Xc.assume(ne(ob.rC, k['rvrr' + r], 8))
                b = E.rd(Xc.st, Ptr('regs', simp(mul(zext(ob.rC, 8, 64), 8, 64))), 8)
                Xc.assume(ult(b, 1 << 46, 64))
            else:
                b = frame
            a = simp(add(b, zext(ob.arg, 32, 64), 64))
            ob.base = Ptr(None, b)
            ob.addr = Ptr(None, a)
            # a null pointer plus a member offset stays in the unmapped first 64 KB
            Xc.assume(Or(uge(b, 0x10000, 64), ult(a, 0x10000, 64)))
            ob.heap(Xc, 'heap', a, b, n)

    def machine(self, Xc, E0, F):
        E = Xc.E
        k = K()
        S = F.copy()
        for n in ('regs', 'consts', 'heap', 'heap2', E.flat):
            if n in E0.mem:
                S.mem[n] = E0.mem[n]
        m = M86(E, S, {R('RBX'): Ptr('regs', 0), R('R15'): self.frame, R('R14'): Ptr('consts', 0), R('R13'): Ptr('vmstate', 0)})
        m.slots = {(8 * k['rvrrFrame'], 8): self.frame, (8 * k['rvrrConstants'], 8): Ptr('consts', 0), (8 * k['rvrrRegisters'], 8): Ptr('regs', 0)}
        return m

    def mem_ok(self, p, n, write):
        ob = self.ob
        if ob.addr is None or ob.addr.base is not None:
            return False
        if write and not ob.memw:
            return False
        d = simp(sub(p.off, ob.addr.off, 64))
        return And(ule(n, ob.memsz, 64), ule(d, simp(sub(ob.memsz, n, 64)), 64))

    # calls to helpers; arguments per the System V ABI
    def call(self, run, m, v):
        E = self.Xc.E
        n = fn_name(E, v, self.Xc)
        if n is None:
            raise Unsupported('call to an unknown function %r' % (v,))
        rd = lambda r: run.val(m, ('r', R(r)), 64)
        a1, a2, a3 = (m.r64(R(r)) for r in ('RDI', 'RSI', 'RDX'))
        x1, x2 = m.x.get(0), m.x.get(1)
        lo = lambda x: simp(trunc(x, 64, 32))
        short = re.sub(r'^_Z\d+', '', n)
        h = self.helpers.get(short) or self.helpers.get(n)
        if h is None:
            raise Unsupported('call to ' + n)
        kind = h[0]
        if kind == 'err':
            ok = m.g.get(R('RDI'))
            p = ok if isinstance(ok, Ptr) else E.i2p(ok)
            run.obl.append(('the error is reported for the running program', m.hyps, p.base == 'vmstate' and eq(p.off, 0, 64)))
            run.obl.append(('the error is reported at this instruction', m.hyps, eq(E.rd(m.S, Ptr('vmstate', vs('callInstructionPos')), 4), self.pos, 32)))
            run.leaves.append(x86.Leaf('err', m, h[1]))
            return 'stop'
        ret = rx = None
        if kind == 'ipow':
            ret = simp(zext(interp.vm_pow(32)(lo(a1), lo(a2)), 32, 64))
        elif kind == 'lpow':
            ret = interp.vm_pow(64)(a1, a2)
        elif kind == 'libm':
            rx = interp.libm(h[1], x1, x2)
        elif kind == 'event':
            ret = h[1](self, run, m)
            if ret == 'stop':
                return 'stop'
        keep = [R(r) for r in SAVED]
        m.g.clobber(keep)
        m.x.clobber([])
        m.flags = None
        m.eximm = False
        m.unread = ()
        if ret is not None:
            m.g.set(R('RAX'), ret)
        if rx is not None:
            m.x.set(0, rx)
        return None

    helpers = {'VmIntPowii': ('ipow',), 'VmLongPowxx': ('lpow',), 'pow': ('libm', 'pow'), 'fmod': ('libm', 'fmod'),
               'ErrorOutOfBoundsWrapP24CodeGenRegVmStateContext': ('err', 'bounds'), 'ErrorInvalidFunctionPointerP24CodeGenRegVmStateContext': ('err', 'fptr')}

    def post_(self, Xc, E0, F, ret):
        E = Xc.E
        ob = self.ob
        self.Xc = Xc
        ob.Xc = Xc
        if ob.addr is not None and ob.addr.base is None and Xc.concrete and ob.base.off >= 0x10000:
            ob.addr = Ptr('heap', 0)
        E.flat_ok = None
        for e in F.events:
            if e[0] == 'killarg':
                yield 'dead registers are those of this instruction', e[1] == 'kill' and eq(e[2], zext(self.killoff, 32, 64), 64)
        evs = [e for e in F.events if e[0] != 'killarg']
        run = Run(E, evs, self.mem_ok, self.call)
        run.rvcInt = K()['rvcInt']
        m0 = self.machine(Xc, E0, F)
        for e in evs:
            # only registers the emit layer may hand out hold copies of VM values
            if e[0] == 'op' and len(e[2]) == 2 and {e[2][0][0], e[2][1][0]} == {'r', 'm'}:
                rr = e[2][0] if e[2][0][0] == 'r' else e[2][1]
                mm = e[2][1] if e[2][0][0] == 'r' else e[2][0]
                if isc(mm[4]) and mm[4] in (R('RBX'), R('R14'), R('R15')):
                    yield 'VM values are kept in allocatable registers', Or(*[eq(rr[1], R(x), 32) for x in ALLOC])
        leaves = run.run(m0)
        for nm, hyp, g in run.obl:
            yield nm, self.imp(hyp, g)
        v = V(ob, Xc, E0)
        sp = ob.spec(v)
        self.hints = tuple(self.lemmas(v)) if not Xc.concrete else ()
        yield from self.compare(Xc, E0, F, v, sp, leaves)
        yield from self.extra(Xc, E0, F)

    def post(self, Xc, E0, F, ret):
        from vc import sym
        sym.set_abstract(not Xc.concrete and self.abstract)
        try:
            yield from self.post_(Xc, E0, F, ret)
        finally:
            sym.set_abstract(False)

    hints = ()

    def lemmas(self, v):
        return ()

    def extra(self, Xc, E0, F):
        return ()

    def imp(self, hyps, g):
        if any(h is False for h in hyps):
            return True
        hs = tuple(h for h in hyps if h is not True)
        if self.Xc.concrete:
            return Or(g, *[Not(h) for h in hs])
        if isc(g) if not isinstance(g, bool) else True:
            g = bool(g)
            if g:
                return True
        if not isinstance(g, bool) and self.ob.op in ('Mul', 'Mull'):
            hs = hs + tuple(mul_lemmas([g]))
        hs = hs + tuple(h for h in self.hints if h is not True)
        return (g, [], tuple(bz(h) for h in hs))

    def compare(self, Xc, E0, F, v, sp, leaves):
        errs, writes, mw, nxt = sp.get('errs', []), sp.get('regs', []), sp.get('mem', []), sp.get('next', 'seq')
        prev, conds = [], {}
        for c, cat in errs:
            conds[cat] = Or(conds.get(cat, False), And(c, *[Not(p) for p in prev]))
            prev.append(c)
        anyerr = Or(*prev) if prev else False
        for l in leaves:
            hy = l.m.hyps
            if any(h is False for h in hy):
                continue
            if l.kind == 'null':
                yield 'memory fault only for a null pointer', self.imp(hy, conds.get('null', False))
            elif l.kind == 'de':
                yield 'divide fault only for an invalid division', self.imp(hy, Or(conds.get('div', False), conds.get('overflow', False)))
            elif l.kind == 'err':
                yield 'error reports its cause', self.imp(hy, conds.get(l.info, False))
            elif l.kind in ('end', 'jump', 'ret'):
                yield 'invalid operation stops with an error', self.imp(hy, Not(anyerr))
                yield from self.control(v, l, nxt)
                for nm, g in self.frame_(Xc, E0, l, writes, mw):
                    yield nm, self.imp(hy, g)
            if l.kind in ('null', 'de', 'err'):
                yield 'memory unchanged before the error', self.imp(hy, self.memsame(Xc, E0, l))

    def control(self, v, l, nxt):
        yield 'continues with the next instruction', self.imp(l.m.hyps, l.kind == 'end' and nxt == 'seq')

    def memsame(self, Xc, E0, l):
        E = Xc.E
        if Xc.concrete:
            return all(E.obj(l.m.S, h) is E.obj(l.m.S, h) for h in ())
        x, y = E0.mem[E.flat], l.m.S.mem[E.flat]
        if x is y:
            return True
        i = E.fresh('sk_addr', 64)
        return eq(simp(x.byte(i)), simp(y.byte(i)), 8)

    def frame_(self, Xc, E0, l, writes, mw):
        E = Xc.E
        S = E0.copy()
        loose, nan, wr = [], [], []
        for kind, r, val in writes:
            o = simp(mul(zext(r, 8, 64), 8, 64))
            wr.append((o, 8))
            if kind == 'i':
                E.wr(S, Ptr('regs', o), 4, val)
                loose.append(o)
            else:
                E.wr(S, Ptr('regs', o), 8, val)
                if kind == 'd' and Xc.concrete and isnan64(val):
                    nan.append(o)
        for p, n, val in mw:
            if callable(n):
                S.mem[p.base or E.flat] = n(E.obj(S, p.base or E.flat))
            else:
                E.wr(S, p, n, val)
        a, b = E.obj(S, 'regs'), E.obj(l.m.S, 'regs')
        if DBG:
            for kind, r, val in writes:
                o = simp(mul(zext(r, 8, 64), 8, 64))
                print('SPEC', simp(E.rd(S, Ptr('regs', o), 8)))
                print('MACH', simp(E.rd(l.m.S, Ptr('regs', o), 8)))
        nk = [e for e in getattr(self, 'kills', [])]
        kill = lambda i: Or(ne(E.obj(E0, 'killE').byte(simp(lshr(i, 3, 64))), 0, 8), ne(E.obj(E0, 'killL').byte(simp(lshr(i, 3, 64))), 0, 8))

        for (kind, r, val), (o, n) in zip(writes, wr):
            if o in nan:
                continue
            # the upper half counts unless this or a later write is 32 bits wide
            nar = Or(*[And(k2 == 'i' or k2[1], eq(o, o2, 64)) for (k2, _, _), (o2, _) in zip(writes, wr) if k2 == 'i' or k2[0] == 'n'])
            nar = nar if isinstance(nar, bool) else simp(nar)
            n = 4 if nar is True else 8
            x, y = simp(E.rd(S, Ptr('regs', o), n)), simp(E.rd(l.m.S, Ptr('regs', o), n))
            if isinstance(nar, bool):
                yield 'result register holds the result', eq(x, y, 8 * n)
            else:
                yield 'result register holds the result', And(eq(extract(x, 31, 0), extract(y, 31, 0), 32), Or(nar, eq(x, y, 64)))

        def body(i):
            g = Or(*[ult(simp(sub(i, o, 64)), n, 64) for o, n in wr]) if wr else False
            if g is True:
                return True
            g = Or(g, eq(simp(a.byte(i)), simp(b.byte(i)), 8))
            return Or(g, kill(i), ult(i, 8 * K()['rvrrCount'], 64))
        yield 'other registers are unchanged', forall(Xc, 'regs', 2048, body)
        for o in nan:
            yield 'result is a NaN', isnan64(b.read(o, 8))
        if Xc.concrete:
            for h in ('heap', 'heap2'):
                if h in S.mem:
                    x, y = E.obj(S, h), E.obj(l.m.S, h)
                    if mw and self.ob.op == 'StoreFloat' and isnan32(mw[0][2]):
                        yield 'memory result is a NaN', isnan32(y.read(0, 4))
                    else:
                        yield 'memory holds the result and is otherwise unchanged', forall(Xc, h, x.size, lambda i: eq(x.byte(i), y.byte(i), 8))
        else:
            x, y = S.mem[E.flat], l.m.S.mem[E.flat]
            if x is not y:
                i = E.fresh('sk_addr', 64)
                yield 'memory holds the result and is otherwise unchanged', eq(simp(x.byte(i)), simp(y.byte(i)), 8)
        x, y = E0.mem['consts'], l.m.S.mem['consts']
        if x is not y:
            yield 'constants are unchanged', forall(Xc, 'consts', 1 << 14, lambda i: eq(x.byte(i), y.byte(i), 8))


# ---------------------------------------------------------------- moves, addresses, block operations
def copies(v, moves):
    """consecutive register copies (destination, source, 32 bits only)"""
    E = v.E
    S = v.S.copy()
    at = lambda r: Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64)))
    out = []
    for d, s, narrow in moves:
        val = E.rd(S, at(s), 8)
        E.wr(S, at(d), 8, val)
        out.append((('n', narrow), d, val))
    return dict(regs=out)


class JitMov(JitOp):
    """rB holds the copy type of every move: an int needs its low half only"""
    regs = 'AC'

    def __init__(self, ob, n):
        super().__init__(ob)
        self.n = n

    def stubs(self, Xc):
        d = emit_stubs(Xc)
        if self.n > 1:
            # the helper is under contract through GenCodeCmdMov
            def helper(E, st, a, I):
                event(st, 'move', a[1], a[2], simp(zext(a[3], 8, 32) if not isc(a[3]) and a[3].size() == 8 else a[3]))
            for nm in build.module(TUS[0]).functions:
                if 'GetCodeCmdMovHelper' in nm:
                    d[build.demangle([nm])[nm]] = helper
        return d

    def more(self, Xc):
        k = K()
        ob = self.ob
        ob.pre = lambda Xc, v: None
        f = lambda hi, lo: simp(extract(ob.arg, hi, lo))
        pairs = [(ob.rA, ob.rC), (f(31, 24), f(23, 16)), (f(15, 8), f(7, 0))][:self.n]
        self.moves = []
        Xc.assume(ult(ob.rB, 1 << 2 * self.n, 8))
        used = True
        for i, (d, s) in enumerate(pairs):
            t = simp(and_(lshr(ob.rB, 2 * i, 8), 3, 8))
            isint = eq(t, k['rvcInt'], 8)
            if i:
                used = And(used, ne(d, s, 8))
                Xc.assume(Or(ne(d, s, 8), And(eq(d, 0, 8))))
                Xc.assume(Or(used, And(eq(d, 0, 8), eq(s, 0, 8))))
            Xc.assume(Or(Not(used), And(uge(d, k['rvrrCount'], 8), uge(s, k['rvrrCount'], 8), ne(d, s, 8))))
            # a moved register is not one the instruction ends the life of; an int is read as an int
            dead = lambda r: ne(Xc.E.obj(Xc.st, 'killE').byte(simp(zext(r, 8, 64))), 0, 8)
            Xc.assume(Not(dead(d)))
            for d0, s0, n0 in self.moves:
                Xc.assume(Or(Not(used), Not(n0), isint, ne(s, d0, 8)))
            if i:
                # a register read by a later move does not die at the first one
                Xc.assume(Or(Not(used), Not(dead(s))))
            self.moves.append((d, s, isint))
        ob.spec = lambda v: copies(v, self.moves)


class JitGetAddr(JitOp):
    regs = 'AC'

    def __init__(self, ob):
        super().__init__(ob)
        ob.spec = lambda v: dict(regs=[('q', v.A, add(self.base(v), zext(v.arg, 32, 64), 64))])

    def operand_kinds(self):
        return ['pointer', 'frame', 'constants']

    def base(self, v):
        return {'pointer': lambda: v.r64(v.C), 'frame': lambda: self.frame, 'constants': lambda: v.E.p2i(Ptr('consts', 0))}[self.kind]()

    def operand(self, Xc):
        super().operand(Xc)
        if self.kind == 'pointer':
            for r in ('Frame', 'Constants', 'Registers'):
                Xc.assume(ne(self.ob.rC, K()['rvrr' + r], 8))


class JitIndex(JitOp):
    def more(self, Xc):
        Xc.assume(uge(simp(extract(self.ob.arg, 23, 16)), K()['rvrrCount'], 8))

    def lemmas(self, v):
        # i * s < 2^31 (precondition), so the product of 32 bits is the product; multiplication by a power of two is a shift
        i, s = zext(v.r32(v.B), 32, 64), zext(v.field(15, 0), 16, 64)
        p = mul(i, s, 64)
        yield eq(p, zext(mul(v.r32(v.B), zext(v.field(15, 0), 16, 32), 32), 32, 64), 64)
        for n in range(5):
            yield Or(ne(s, 1 << n, 64), And(eq(p, shl(i, n, 64), 64), ult(i, 1 << 31 - n, 64)))


class JitSetRange(JitOp):
    regs = 'AC'

    def operand(self, Xc):
        super().operand(Xc)
        self.ob.mem_setup(Xc)


class MemCopySpec(interp.MemCopy):
    pass


class JitMemCopy(JitOp):
    regs = 'AC'

    def operand(self, Xc):
        super().operand(Xc)
        ob = self.ob
        Xc.assume(eq(and_(ob.arg, 3, 32), 0, 32))
        Xc.assume(ne(ob.arg, 0, 32))
        Xc.assume(ult(ob.arg, 1 << 31, 32))
        ob.mem_setup(Xc)

    def mem_ok(self, p, n, write):
        ob = self.ob
        b = ob.dst if write else ob.src
        d = simp(sub(p.off, b, 64))
        return And(ule(n, ob.n, 64), ule(d, simp(sub(ob.n, n, 64)), 64))


SETS = 'setl setg setle setge sete setne setz setnz'.split()


class JitJump(JitOp):
    """conditional and unconditional jumps.  The last instructions of the list may be a comparison whose result is tested (xor, cmp, set); they may be
    rewritten into a compare and branch, which has to behave as the original instructions followed by the test."""
    regs = 'C'
    NI = 10

    def __init__(self, ob, last=None):
        super().__init__(ob)
        self.regs = 'C' if ob.op != 'Jmp' else ''
        self.last = last
        if last:
            self.name += '(%s)' % last
        self.ob.spec = lambda v: dict(next=self.target(v))

    def target(self, v):
        c = {'Jmp': lambda: True, 'Jmpz': lambda: eq(v.r32(v.C), 0, 32), 'Jmpnz': lambda: ne(v.r32(v.C), 0, 32)}[self.ob.op]()
        return c

    def iat(self, i, f, sub=None):
        o = i * K()['sizeof(x86Instruction)'] + off('x86Instruction', f) + (off('x86Argument', sub) if sub else 0)
        return Ptr('insts', o)

    def more(self, Xc):
        k, kx = K(), x86.K()
        E = Xc.E
        ob = self.ob
        self.tail = None
        Xc.assume(ult(ob.arg, 1 << 30, 32))
        behind = 1 if self.last else 0
        E.wr(Xc.st, Ptr('ctx', cx('ctx.x86LookBehind')), 1, behind)
        insts = Xc.obj('insts', self.NI * k['sizeof(x86Instruction)'])
        Xc.align['insts'] = 16
        st = Xc.st
        E.wr(st, Ptr('ctx', cx('ctx.x86Op')), 8, Ptr('insts', (self.NI - 1) * k['sizeof(x86Instruction)']))
        if not behind:
            return
        none, other = kx['o_none'], kx['o_other']
        names = {}
        i = self.NI - 1
        opnames = sorted(set(kx['ops']))
        tail = []
        for what, pat in (('set', SETS), ('cmp', ['cmp']), ('xor', ['xor'])):
            # removed instructions in between
            if what == 'set':
                E.wr(st, self.iat(i, 'name'), 4, none)
            gap = Xc.choice('gap', [0, 1]) if what == 'set' else gap
            if gap:
                i -= 1
                g = Xc.int('gap%s' % what, 32)
                Xc.assume(Or(eq(g, none, 32), eq(g, other, 32)))
                E.wr(st, self.iat(i, 'name'), 4, g)
            i -= 1
            nm = self.last if what == 'set' else Xc.choice(what, pat + ['another'])
            if nm == 'another':
                g = Xc.int('name%s' % what, 32)
                Xc.assume(And(ne(g, none, 32), ne(g, other, 32), *[ne(g, kx['o_' + p], 32) for p in pat]))
                E.wr(st, self.iat(i, 'name'), 4, g)
                return
            E.wr(st, self.iat(i, 'name'), 4, kx['o_' + nm])
            ops = []
            form = {'set': ('argReg', 'argNone'), 'xor': ('argReg', 'argReg')}.get(what) or Xc.choice('operands', [('argReg', 'argReg'), ('argReg', 'argNumber'), ('argReg', 'argPtr'), ('argPtr', 'argReg')])
            for a, kd in zip(('argA', 'argB'), form):
                E.wr(st, self.iat(i, a, 'type'), 4, kx['x86Argument::' + kd])
                if kd == 'argReg':
                    r = Xc.int('%s%s reg' % (what, a), 8)
                    Xc.assume(z3.Or([r == R(x) for x in ALLOC]) if not isc(r) else r in [R(x) for x in ALLOC])
                    r = simp(zext(r, 8, 32))
                    E.wr(st, self.iat(i, a, 'reg'), 4, r)
                    ops.append(('r', r))
                elif kd == 'argNumber':
                    n = Xc.int(what + a, 32)
                    E.wr(st, self.iat(i, a, 'num'), 4, n)
                    ops.append(('i', n, 32))
                elif kd == 'argPtr':
                    # an operand in the register file
                    n = Xc.int(what + a, 8)
                    d = simp(mul(zext(n, 8, 32), 8, 32))
                    ops.append(('m', kx['sDWORD'], R('NONE'), 1, R('RBX'), d))
                    for f, v in (('ptrSize', kx['sDWORD']), ('ptrIndex', R('NONE')), ('ptrMult', 1), ('ptrBase', R('RBX')), ('ptrNum', d)):
                        E.wr(st, self.iat(i, a, f), 4, v)
            tail.insert(0, (i, nm, ops))
        self.tail = tail

    def post_(self, Xc, E0, F, ret):
        if self.tail is None:
            yield from super().post_(Xc, E0, F, ret)
            return
        E = Xc.E
        k, kx = K(), x86.K()
        self.Xc = self.ob.Xc = Xc
        left, same = [], True
        for i, nm, ops in self.tail:
            n = simp(E.rd(F, self.iat(i, 'name'), 4))
            if not isc(n):
                yield 'instructions are only removed', False
                return
            if n == kx['o_' + nm]:
                left.append((nm, ops))
            else:
                yield 'instructions are only removed', n == kx['o_none']
                same = False
        ob_, cur = E.obj(E0, 'insts'), E.obj(F, 'insts')
        na = [self.iat(i, 'name').off for i, _, _ in self.tail]
        yield 'other instructions are kept', forall(Xc, 'insts', self.NI * k['sizeof(x86Instruction)'], lambda d: Or(*([eq(ob_.byte(d), cur.byte(d), 8)] + [ult(simp(sub(d, o, 64)), 4, 64) for o in na])))
        if same:
            yield from super().post_(Xc, E0, F, ret)
            return
        # the original instructions, then the value that is tested
        evs = [e for e in F.events if e[0] not in ('killarg',)]
        find = [e for e in evs if e[0] == 'find']
        mk = lambda ops: [('op', kx['o_' + nm], o) for nm, o in ops]
        r0 = Run(E, mk([(nm, o) for _, nm, o in self.tail]), self.mem_ok, self.call)
        lo = r0.run(self.machine(Xc, E0, F))
        # the comparison instructions exist only if they are executable; the register was found to hold the tested value
        v = V(self.ob, Xc, E0)
        if not find or len(lo) != 1:
            yield 'the tested value is known', False
            return
        val = v.r32(v.C)
        hy = tuple(h for l in lo for h in l.m.hyps) + (eq(simp(extract(lo[0].m.int(lo[0].m.g.get(find[0][2])), 31, 0)), val, 32),)
        yield 'dead registers are those of this instruction', all(e[0] != 'killarg' or e[1] == 'kill' for e in F.events)
        run = Run(E, mk(left) + [e for e in evs if e[0] != 'find'], self.mem_ok, self.call)
        m = self.machine(Xc, E0, F)
        m.hyps = hy
        leaves = run.run(m)
        for nm, hyp, g in run.obl:
            yield nm, self.imp(hyp, g)
        yield from self.compare(Xc, E0, F, v, self.ob.spec(v), leaves)

    def control(self, v, l, nxt):
        kx = x86.K()
        if l.kind == 'jump':
            yield 'branches exactly when the condition holds', self.imp(l.m.hyps, nxt)
            yield 'branches to its target', self.imp(l.m.hyps, eq(simp(and_(l.info, M(32) & ~kx['JUMP_NEAR'], 32)), or_(self.ob.arg, kx['LABEL_GLOBAL'], 32), 32))
        else:
            yield 'branches exactly when the condition holds', self.imp(l.m.hyps, And(l.kind == 'end', Not(nxt)))

    def extra(self, Xc, E0, F):
        yield from self.settled(F)

    def settled(self, F):
        for e in F.events:
            if e[0] == 'op' and e[2] and e[2][0][0] == 'l' and not (isc(e[2][0][1]) and not e[2][0][1] & x86.K()['LABEL_GLOBAL']):
                yield 'cached values are dropped at a jump', len(e) > 4 and e[3] and e[4]


# generators that need a contract of their own, or none
OWN = 'Jmp Jmpz Jmpnz Call CallPtr Return Nop ConvertPtr SetRange MemCopy Mov MovMult GetAddr Index Breakupdd'.split()


def pre_breakup(Xc, v):
    # the lowering gives the halves registers of their own
    Xc.assume(And(ne(v.A, v.B, 8), ne(v.A, v.C, 8)))


def prepare():
    K()
    x86.K()
    interp.K()


def contracts():
    out = []
    for ob in interp.contracts_all():
        if ob.op not in OWN:
            out.append(JitOp(ob))
        elif ob.op == 'Mov':
            out.append(JitMov(ob, 1))
        elif ob.op == 'MovMult':
            out.append(JitMov(ob, 3))
        elif ob.op == 'Breakupdd':
            ob.pre = pre_breakup
            out.append(JitOp(ob))
        elif ob.op == 'GetAddr':
            out.append(JitGetAddr(ob))
        elif ob.op in ('Jmp', 'Jmpz', 'Jmpnz'):
            out.append(JitJump(ob))
            if ob.op != 'Jmp':
                out.extend(JitJump(copy.copy(ob), x) for x in SETS + ['another'])
        elif ob.op == 'Index':
            out.append(JitIndex(ob))
        elif ob.op == 'SetRange':
            out.append(JitSetRange(ob))
        elif ob.op == 'MemCopy':
            out.append(JitMemCopy(ob))
    return out
