"""JIT code generators of calls, returns, checked pointer conversion and the empty instruction."""
from .common import *
from . import interp, x86, vmcall, jit
from .x86 import R, bits
from .jit import JitOp, cx, vs, fn_name, event
from .vmcall import PUSHES, POPS, seqs

SZ = 8192
_k = None


def K():
    """constants of the generator and of the microcode"""
    global _k
    if _k is None:
        _k = dict(jit.K())
        _k.update({a: b for a, b in vmcall.K().items()})
        _k.update(build.probe(['stdafx.h', 'InstructionTreeRegVm.h', 'CodeGenRegVm_X86.h', 'Linker.h', 'nullc_internal.h'],
                              ['OFF(ExternFuncInfo,builtinIndex)', 'NULLC_BUILTIN_SQRT', 'OFF(CodeGenRegVmCallStackEntry,instruction)']))
    return _k


class Ob(interp.OpBase):
    def __init__(self, op):
        super().__init__(op)
        self.pre = lambda Xc, v: None

    def isfloat(self):
        return False

    def spec(self, v):
        return {}


class Base(JitOp):
    regs = ''
    abstract = False
    MEMREG = 40
    objs = ('stack', 'temp', 'calls', 'mem', 'fmem')

    def __init__(self, op):
        super().__init__(Ob(op))

    # ---- state of the virtual machine
    def operand(self, Xc):
        k = K()
        E = Xc.E
        for n, s in (('stack', 16384), ('temp', 16384), ('calls', 4096), ('mem', SZ), ('fmem', SZ)):
            Xc.obj(n, s)
            Xc.align[n] = 16
        self.frame = Ptr('fmem', 0)
        self.stop = Ptr('stack', 64)
        self.ctop = Ptr('calls', 256)
        for f, v in (('dataStackTop', self.stop), ('callStackTop', self.ctop), ('callStackBase', Ptr('calls', 0)), ('dataStackBase', Ptr('stack', 0)), ('dataStackEnd', Ptr('stack', 16384)),
                     ('regFileLastTop', Ptr('regs', 1024)), ('tempStackArrayBase', Ptr('temp', 0))):
            E.wr(Xc.st, Ptr('vmstate', vs(f)), 8, v)
        E.wr(Xc.st, Ptr('regs', self.MEMREG * 8), 8, Ptr('mem', 0))
        E.wr(Xc.st, Ptr('regs', k['rvrrGlobals'] * 8), 8, Ptr('mem', 0))

    def words(self, op, name, Xc):
        """microcode words of one operation and a record of it"""
        k = K()
        code = k['rvmi' + op]
        if op in ('Push', 'PushQword', 'Pop', 'Popq'):
            r = Xc.int(name + '.reg', 8)
            Xc.assume(uge(r, k['rvrrCount'], 8))
            return [code, simp(zext(r, 8, 32))], (op, r)
        if op in ('PushImm', 'PushImmq'):
            v = Xc.int(name + '.imm', 32)
            return [code, v], (op, v)
        kinds = ['pointer', 'globals', 'frame', 'registers'] + (['constants'] if op == 'PushMem' else [])
        kind = Xc.choice(name + '.base', kinds)
        off, size = Xc.int(name + '.off', 32), Xc.int(name + '.size', 32)
        lim = {'registers': 2048 - 8 * k['rvrrCount']}.get(kind, 4096)
        Xc.assume(And(ule(size, lim, 32), eq(and_(size, 3, 32), 0, 32), ule(off, lim, 32), ule(add(off, size, 32), lim, 32), ne(size, 0, 32)))
        if kind == 'registers':
            Xc.assume(uge(off, 8 * k['rvrrCount'], 32))
        reg = {'pointer': self.MEMREG, 'globals': k['rvrrGlobals'], 'frame': k['rvrrFrame'], 'constants': k['rvrrConstants'], 'registers': k['rvrrRegisters']}[kind]
        obj = {'pointer': 'mem', 'globals': 'mem', 'frame': 'fmem', 'constants': 'consts', 'registers': 'regs'}[kind]
        return [code, reg, off, size], (op, obj, off, size)

    def micro(self, Xc, pos, words):
        """microcode at a position of the constant table"""
        b = simp(mul(zext(pos, 32, 64), 4, 64))
        for i, w in enumerate(words):
            Xc.put(Ptr('consts', simp(add(b, 4 * i, 64))), 4, w)

    def position(self, Xc, name, bits_=24):
        """constants of the program come first; the microcode lies behind them"""
        p = Xc.int(name, bits_)
        p = simp(zext(p, bits_, 32)) if bits_ < 32 else p
        Xc.assume(And(uge(p, 4096, 32), ult(p, jit.NCONST // 4 - 64, 32) if not Xc.concrete else ult(p, (1 << 14) - 64, 32)))
        if not Xc.concrete:
            Xc.softs.append(z3.ULT(p, (1 << 14) - 64))
        return p

    def push_effect(self, Xc, S, recs, obj, base):
        E = Xc.E
        off = base
        rd = lambda r, n: E.rd(S, Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64))), n)
        for rec in recs:
            op = rec[0]
            if op == 'Push':
                obj, n = obj.write(off, 4, rd(rec[1], 4)), 4
            elif op == 'PushQword':
                obj, n = obj.write(off, 8, rd(rec[1], 8)), 8
            elif op == 'PushImm':
                obj, n = obj.write(off, 4, rec[1]), 4
            elif op == 'PushImmq':
                obj, n = obj.write(off, 8, zext(rec[1], 32, 64)), 8
            else:
                src = E.obj(S, rec[1])
                o, n = zext(rec[2], 32, 64), zext(rec[3], 32, 64)
                obj = obj.write_block(off, n, lambda d, src=src, o=o: src.byte(simp(add(o, d, 64))))
            off = simp(add(off, n, 64))
        return obj

    def same(self, Xc, a, b, n, skip=()):
        E = Xc.E
        if a is b:
            return True
        skip = list(skip)
        if Xc.concrete:
            return all(any(o <= i < o + s for o, s in skip) or a.byte(i) == b.byte(i) for i in range(n))
        i = E.fresh('sk_i', 64)
        g = eq(simp(a.byte(i)), simp(b.byte(i)), 8)
        return Or(uge(i, n, 64), g, *[ult(simp(sub(i, o, 64)), s, 64) for o, s in skip])

    def machine(self, Xc, E0, F):
        m = super().machine(Xc, E0, F)
        for n in self.objs + ('functab',):
            if n in E0.mem:
                m.S.mem[n] = E0.mem[n]
        return m

    def size(self, n):
        k = K()
        return {'stack': 16384, 'temp': 16384, 'calls': 4096, 'mem': SZ, 'fmem': SZ, 'regs': 2048, 'consts': 1 << 14, 'vmstate': k['sizeof(CodeGenRegVmStateContext)']}[n]

    def vmfield(self, E, S, f, n=8):
        return E.rd(S, Ptr('vmstate', vs(f)), n)

    def isptr(self, E, v, p):
        q = E.i2p(v) if not isinstance(v, Ptr) else v
        return q.base == p.base and eq(q.off, p.off, 64)

    def compare(self, Xc, E0, F, v, sp, leaves):
        return ()

    def spare(self, n):
        """ranges of the register file that hold no VM register"""
        return [(0, 8 * K()['rvrrCount'])] if n == 'regs' else []

    def state_same(self, Xc, what, hy, E0, S, F, skip=()):
        for n in self.objs + ('regs', 'consts'):
            if n in skip:
                continue
            yield what % n, self.imp(hy, self.same(Xc, Xc.E.obj(E0, n), Xc.E.obj(S, n), self.size(n), self.spare(n)))

    def clobber_call(self, m, keep):
        m.g.clobber([R(r) for r in keep])
        m.x.clobber([])
        m.flags = None
        m.eximm = False
        m.unread = ()


class JitCall(Base):
    """the arguments are stored to the top of the data stack, the return address is pushed, the callee is entered through its native address or
    through the wrapper when it has none, and the results are taken from the temporary stack"""

    def __init__(self, op, args, pops, result):
        super().__init__(op)
        self.args, self.pops, self.result = args, pops, result
        self.name = 'GenCodeCmd%s(%s) -> %s [%s]' % (op, ', '.join(args), result, ', '.join(pops))

    def plain_regs(self, Xc):
        if self.ob.op == 'CallPtr':
            Xc.assume(And(uge(self.ob.rC, K()['rvrrCount'], 8), ne(self.ob.rC, self.MEMREG, 8)))

    def more(self, Xc):
        k = K()
        E = Xc.E
        ob = self.ob
        self.nf = 1 << 16
        Xc.obj('functab', 8 * self.nf)
        Xc.align['functab'] = 16
        E.wr(Xc.st, Ptr('vmstate', vs('functionAddress')), 8, Ptr('functab', 0))
        pos = self.position(Xc, 'microcode')
        if ob.op == 'Call':
            Xc.assume(eq(pos, or_(or_(shl(zext(ob.rA, 8, 32), 16, 32), shl(zext(ob.rB, 8, 32), 8, 32), 32), zext(ob.rC, 8, 32), 32), 32))
            Xc.assume(ult(ob.arg, self.nf, 32))
            pos = simp(or_(or_(shl(zext(ob.rA, 8, 32), 16, 32), shl(zext(ob.rB, 8, 32), 8, 32), 32), zext(ob.rC, 8, 32), 32))
            self.id = ob.arg
            # whether the function is a known builtin
            fs = k['sizeof(ExternFuncInfo)']
            nf = self.nf if not Xc.concrete else 256
            if Xc.concrete:
                Xc.assume(ult(ob.arg, nf, 32))
            else:
                Xc.softs.append(z3.ULT(ob.arg, 256))
            Xc.obj('functions', nf * fs)
            Xc.align['functions'] = 16
            E.wr(Xc.st, Ptr('ctx', cx('exFunctions')), 8, Ptr('functions', 0))
            self.bi = Xc.choice('builtin', ['no', 'sqrt']) if self.args[:1] == ['PushQword'] else 'no'
            b = Xc.int('builtinIndex', 32)
            Xc.assume(eq(b, k['NULLC_BUILTIN_SQRT'], 32) if self.bi == 'sqrt' else ne(b, k['NULLC_BUILTIN_SQRT'], 32))
            E.wr(Xc.st, Ptr('functions', simp(add(mul(zext(ob.arg, 32, 64), fs, 64), k['OFF(ExternFuncInfo,builtinIndex)'], 64))), 4, b)
            if self.bi == 'sqrt':
                # the builtin takes a double and its context and returns a double
                Xc.assume(self.args in (['PushQword'], ['PushQword', 'PushImmq']) and self.result == 'Double' and not self.pops)
        else:
            self.bi = 'no'
            # installed by the generator of an earlier direct call: the base module, which every program links first, contains some
            E.wr(Xc.st, Ptr('vmstate', vs('callWrap')), 8, Ptr('fn:' + [n for n in build.module('CodeGenRegVm_X86.cpp').functions if 'CallWrapP24' in n and n.startswith('_Z8')][0], 0))
            Xc.assume(eq(pos, ob.arg, 32))
            pos = ob.arg
            self.id = E.rd(Xc.st, Ptr('regs', simp(mul(zext(ob.rC, 8, 64), 8, 64))), 4)
            Xc.assume(ult(self.id, self.nf, 32))
        words, self.recs, self.prec = [], [], []
        for i, op in enumerate(self.args):
            w, r = self.words(op, 'arg%d' % i, Xc)
            words += w
            self.recs.append(r)
        words.append(k['rvmiCall'])
        # sequences that write through a pointer register use a fixed register layout, so that the pointer stays a known object
        fixed = 'PopMem' in self.pops
        if fixed:
            self.rr = 5
        else:
            self.rr = Xc.int('resultReg', 8)
            Xc.assume(uge(self.rr, k['rvrrCount'], 8))
        junk = Xc.int('junk', 24)
        words.append(simp(or_(zext(self.rr, 8, 32), shl(zext(junk, 24, 32), 8, 32), 32)))
        words.append(simp(or_(k['rvr' + self.result], shl(zext(junk, 24, 32), 8, 32), 32)))
        for i, op in enumerate(self.pops):
            w, r = self.words(op, 'pop%d' % i, Xc)
            if fixed:
                if op != 'PopMem':
                    w, r = [w[0], 7 + i], (op, 7 + i)
                elif r[1] == 'regs' and i == 0 and len(self.pops) > 1:
                    w, r = [w[0], w[1], 8 * 60, 24], (op, 'regs', 8 * 60, 24)
            words += w
            self.prec.append(r)
        words.append(k['rvmiReturn'])
        self.micro(Xc, pos, words)

    def call(self, run, m, v):
        E = self.Xc.E
        Xc = self.Xc
        k = K()
        E0 = self.E0
        n = fn_name(E, v, Xc)
        if n and 'ErrorInvalidFunctionPointer' in n:
            return super().call(run, m, v)
        ob = lambda nm, g: run.obl.append((nm, m.hyps, g))
        adr = E.rd(E0, Ptr('functab', simp(mul(zext(self.id, 32, 64), 8, 64))), 8)
        if n and 'CallWrap' in n:
            ob('a function without native code is called through the wrapper', eq(adr, 0, 64))
            a = m.g.get(R('RDI'))
            ob('the wrapper gets the machine state', self.isptr(E, a, Ptr('vmstate', 0)))
            ob('the wrapper gets the function', eq(m.r(R('RSI'), 32), self.id, 32))
        elif n:
            raise Unsupported('call to ' + n)
        else:
            ob('native code is entered at the address of the function', eq(m.int(v), adr, 64))
            ob('a function without native code is called through the wrapper', ne(adr, 0, 64))
        if self.ob.op == 'CallPtr':
            ob('a null function is not called', ne(self.id, 0, 32))
        S = m.S
        want = self.push_effect(Xc, E0, self.recs, E.obj(E0, 'stack'), 64)
        ob('arguments are on the data stack and the rest of it is unchanged', self.same(Xc, want, E.obj(S, 'stack'), self.size('stack')))
        wc = E.obj(E0, 'calls').write(256 + k['OFF(CodeGenRegVmCallStackEntry,instruction)'], 4, add(self.pos, 1, 32))
        ob('the return address is recorded', self.same(Xc, wc, E.obj(S, 'calls'), self.size('calls')))
        ob('the return address is pushed', self.isptr(E, self.vmfield(E, S, 'callStackTop'), Ptr('calls', 256 + k['sizeof(CodeGenRegVmCallStackEntry)'])))
        ob('the machine state is otherwise unchanged', self.same(Xc, E.obj(self.F, 'vmstate'), E.obj(S, 'vmstate'), self.size('vmstate'), [(vs('callStackTop'), 8)]))
        for nm, g in self.state_same(Xc, 'no other memory changed before the call (%s)', m.hyps, E0, S, self.F, ('stack', 'calls')):
            run.obl.append((nm, m.hyps, g[0] if isinstance(g, tuple) else g))
        # the callee leaves its results in the temporary stack
        o = E.obj(S, 'temp')
        m.S.mem['temp'] = o.write_block(0, 64, self.result_byte)
        if self.pops and 'PopMem' in self.pops:
            m.S.mem['temp'] = o.write_block(0, 16384, self.result_byte)
        self.clobber_call(m, 'RBX RSP R12 R13 R14 R15'.split())
        self.called = True
        return None

    def result_byte(self, i):
        if self.Xc.concrete:
            return (i * 37 + 11) & 0xff
        return UF('callresult', [64], 8)(bv(i, 64))

    def compare(self, Xc, E0, F, v, sp, leaves):
        E = Xc.E
        k = K()
        for l in leaves:
            hy = l.m.hyps
            if any(h is False for h in hy):
                continue
            if l.kind == 'err':
                yield 'error only for a null function pointer', self.imp(hy, And(self.ob.op == 'CallPtr', eq(self.id, 0, 32)))
                yield from self.state_same(Xc, 'memory unchanged before the error (%s)', hy, E0, l.m.S, F, ('stack', 'calls'))
                continue
            if l.kind != 'end':
                yield 'continues with the next instruction', self.imp(hy, False)
                continue
            S = l.m.S
            regs = E.obj(E0, 'regs')
            skip = []
            if self.shortcut:
                from vc import builtins
                # the operand register may be dead
                x = E.rd(E0, Ptr('regs', simp(mul(zext(self.recs[0][1], 8, 64), 8, 64))), 8)
                y = builtins.LIB['sqrt'](None, None, [x], None)
                o = simp(mul(zext(self.rr, 8, 64), 8, 64))
                z = E.rd(S, Ptr('regs', o), 8)
                yield 'square root of the argument', self.imp(hy, eq(y, z, 64) if not (Xc.concrete and interp.isnan64(y)) else interp.isnan64(z))
                dead = lambda i: ne(E.obj(E0, 'killE').byte(simp(lshr(i, 3, 64))), 0, 8)
                if Xc.concrete:
                    g = all(dead(i) or o <= i < o + 8 or i < 8 * k['rvrrCount'] or regs.byte(i) == E.obj(S, 'regs').byte(i) for i in range(2048))
                else:
                    i = E.fresh('sk_i', 64)
                    g = Or(uge(i, 2048, 64), dead(i), ult(simp(sub(i, o, 64)), 8, 64), ult(i, 8 * k['rvrrCount'], 64), eq(simp(regs.byte(i)), simp(E.obj(S, 'regs').byte(i)), 8))
                yield 'other registers are unchanged', self.imp(hy, g)
                yield from self.state_same(Xc, 'memory is unchanged (%s)', hy, E0, S, F, ('regs',))
                continue
            yield 'the function is called', self.imp(hy, getattr(self, 'called', False))
            o = simp(mul(zext(self.rr, 8, 64), 8, 64))
            objs = {'regs': regs, 'mem': E.obj(E0, 'mem'), 'fmem': E.obj(E0, 'fmem')}
            tb = E.obj(E0, 'temp').write_block(0, 16384, self.result_byte)
            if self.result in ('Double', 'Long'):
                objs['regs'] = objs['regs'].write(o, 8, tb.read(0, 8))
            elif self.result == 'Int':
                objs['regs'] = objs['regs'].write(o, 4, tb.read(0, 4))
            pos = 0
            for rec in self.prec:
                if rec[0] in ('Pop', 'Popq'):
                    n = 4 if rec[0] == 'Pop' else 8
                    objs['regs'] = objs['regs'].write(simp(mul(zext(rec[1], 8, 64), 8, 64)), n, tb.read(pos, n))
                else:
                    n = zext(rec[3], 32, 64)
                    objs[rec[1]] = objs[rec[1]].write_block(zext(rec[2], 32, 64), n, lambda d, pos=pos: tb.byte(simp(add(pos, d, 64))))
                pos = simp(add(pos, n, 64))
            yield 'registers receive the results and are otherwise unchanged', self.imp(hy, self.same(Xc, objs['regs'], E.obj(S, 'regs'), 2048, self.spare('regs')))
            for n in ('mem', 'fmem'):
                yield 'memory receives the results and is otherwise unchanged', self.imp(hy, self.same(Xc, objs[n], E.obj(S, n), SZ))
            yield 'the call stack is balanced', self.imp(hy, self.isptr(E, self.vmfield(E, S, 'callStackTop'), self.ctop))
            yield 'the machine state is otherwise unchanged', self.imp(hy, self.same(Xc, E.obj(F, 'vmstate'), E.obj(S, 'vmstate'), self.size('vmstate'), [(vs('callStackTop'), 8)]))

    def post_(self, Xc, E0, F, ret):
        self.E0, self.F = E0, F
        self.called = False
        self.shortcut = self.bi == 'sqrt' and self.args == ['PushQword', 'PushImmq']
        yield from super().post_(Xc, E0, F, ret)


class JitReturn(Base):
    def __init__(self, kind, ops=()):
        super().__init__('Return')
        self.ret, self.ops = kind, list(ops)
        self.name = 'GenCodeCmdReturn %s [%s]' % (kind, ', '.join(ops))

    def more(self, Xc):
        k = K()
        E = Xc.E
        ob = self.ob
        base = self.ret.split()[0]
        Xc.assume(eq(ob.rB, k['rvr' + base], 8))
        self.checked = 'checked' in self.ret
        Xc.assume(ne(ob.rC, 0, 8) if self.checked else eq(ob.rC, 0, 8))
        self.infn = 'global' not in self.ret
        self.fid = 0 if not self.infn else Xc.int('currFunctionId', 32)
        if self.infn:
            Xc.assume(And(ne(self.fid, 0, 32), ult(self.fid, 64, 32)))
        E.wr(Xc.st, Ptr('ctx', cx('currFunctionId')), 4, self.fid)
        fs = k['sizeof(ExternFuncInfo)']
        Xc.obj('functions', 64 * fs)
        Xc.align['functions'] = 16
        E.wr(Xc.st, Ptr('ctx', cx('exFunctions')), 8, Ptr('functions', 0))
        self.ss, self.rc = Xc.int('stackSize', 32), Xc.int('regVmRegisters', 32)
        Xc.assume(And(ule(self.ss, 1 << 24, 32), ule(self.rc, 256, 32)))
        if self.infn:
            fb = mul(zext(self.fid, 32, 64), fs, 64)
            for f, v in (('stackSize', self.ss), ('regVmRegisters', self.rc)):
                E.wr(Xc.st, Ptr('functions', simp(add(fb, k['OFF(ExternFuncInfo,%s)' % f], 64))), 4, v)
        self.typeId = Xc.int('typeId', 32)
        words, self.recs = [self.typeId, Xc.int('typeSize', 32)], []
        for i, op in enumerate(self.ops):
            w, r = self.words(op, 'arg%d' % i, Xc)
            words += w
            self.recs.append(r)
        words.append(k['rvmiReturn'])
        pos = self.position(Xc, 'microcode')
        Xc.assume(eq(pos, ob.arg, 32))
        self.micro(Xc, ob.arg, words)

    def call(self, run, m, v):
        E = self.Xc.E
        n = fn_name(E, v, self.Xc) or ''
        ob = lambda nm, g: run.obl.append((nm, m.hyps, g))
        if 'ErrorNoReturnWrap' in n:
            ob('the error is reported for the running program', self.isptr(E, m.g.get(R('RDI')), Ptr('vmstate', 0)))
            ob('the error is reported at this instruction', eq(E.rd(m.S, Ptr('vmstate', vs('callInstructionPos')), 4), self.pos, 32))
            run.leaves.append(x86.Leaf('err', m, 'noreturn'))
            return 'stop'
        if 'CheckedReturnWrap' in n:
            ob('a returned pointer is checked on request', self.checked)
            ob('the check gets the machine state', self.isptr(E, m.g.get(R('RDI')), Ptr('vmstate', 0)))
            ob('the check gets the frame', self.isptr(E, m.g.get(R('RSI')), Ptr('fmem', 0)))
            ob('the check gets the type', eq(m.r(R('RDX'), 32), self.typeId, 32))
            m.events = m.events + (('checked', m.S.copy()),)
            self.clobber_call(m, jit.SAVED)
            return None
        raise Unsupported('call to ' + n)

    def compare(self, Xc, E0, F, v, sp, leaves):
        E = Xc.E
        k = K()
        err = self.ret == 'Error'
        for l in leaves:
            hy = l.m.hyps
            if any(h is False for h in hy):
                continue
            if l.kind == 'err':
                yield 'error only for a missing return', self.imp(hy, err)
                yield from self.state_same(Xc, 'memory unchanged before the error (%s)', hy, E0, l.m.S, F)
                continue
            yield 'a missing return is an error', self.imp(hy, not err)
            yield 'returns to the caller', self.imp(hy, l.kind == 'ret')
            if l.kind != 'ret':
                continue
            m, S = l.m, l.m.S
            yield 'result type is reported', self.imp(hy, eq(m.r(R('RAX'), 32), zext(self.ob.rB, 8, 32), 32))
            pops = [e for e in m.events if e[0] == 'pop']
            yield 'saved registers are restored', self.imp(hy, len(pops) == 2 and And(eq(pops[0][1], R('R15'), 32), eq(pops[1][1], R('RBX'), 32)))
            rsp = [e for e in m.events if e[0] == 'rsp']
            yield 'the native frame is released before', self.imp(hy, len(rsp) == 1 and And(eq(rsp[0][1], 40, 64), m.events.index(rsp[0]) < m.events.index(pops[0])))
            chk = [e for e in m.events if e[0] == 'checked']
            yield 'a returned pointer is checked on request', self.imp(hy, len(chk) == (1 if self.checked else 0))
            want = self.push_effect(Xc, E0, self.recs, E.obj(E0, 'temp'), 0)
            yield 'results are in the temporary stack', self.imp(hy, self.same(Xc, want, E.obj(S, 'temp'), self.size('temp')))
            if chk:
                yield 'results are in place when the pointer is checked', self.imp(hy, self.same(Xc, want, E.obj(chk[0][1], 'temp'), self.size('temp')))
            for n in ('stack', 'calls', 'mem', 'fmem', 'consts'):
                yield 'memory is unchanged (%s)' % n, self.imp(hy, self.same(Xc, E.obj(E0, n), E.obj(S, n), self.size(n)))
            kill = lambda i: Or(ne(E.obj(E0, 'killE').byte(simp(lshr(i, 3, 64))), 0, 8), ne(E.obj(E0, 'killL').byte(simp(lshr(i, 3, 64))), 0, 8))
            a, b = E.obj(E0, 'regs'), E.obj(S, 'regs')
            if Xc.concrete:
                yield 'registers are unchanged', all(kill(i) or i < 8 * k['rvrrCount'] or a.byte(i) == b.byte(i) for i in range(2048))
            else:
                i = E.fresh('sk_i', 64)
                yield 'registers are unchanged', self.imp(hy, Or(uge(i, 2048, 64), kill(i), ult(i, 8 * k['rvrrCount'], 64), eq(simp(a.byte(i)), simp(b.byte(i)), 8)))
            fsz = zext(and_(add(self.ss, 15, 32), M(32) - 15, 32), 32, 64) if self.infn else 0
            rsz = mul(zext(self.rc, 32, 64), 8, 64) if self.infn else 0
            ptr = lambda f: E.p2i(self.vmfield(E, S, f)) if isinstance(self.vmfield(E, S, f), Ptr) else self.vmfield(E, S, f)
            yield 'the stack frame is released', self.imp(hy, eq(ptr('dataStackTop'), sub(E.p2i(Ptr('stack', 64)), fsz, 64), 64))
            yield 'the registers are released', self.imp(hy, eq(ptr('regFileLastTop'), sub(E.p2i(Ptr('regs', 1024)), rsz, 64), 64))
            yield 'the machine state is otherwise unchanged', self.imp(hy, self.same(Xc, E.obj(F, 'vmstate'), E.obj(S, 'vmstate'), self.size('vmstate'), [(vs('dataStackTop'), 8), (vs('regFileLastTop'), 8)]))


class JitConvertPtr(Base):
    """the conversion is checked by the wrapper, which gets both type ids; the pointer is copied afterwards"""

    def __init__(self):
        super().__init__('ConvertPtr')
        self.name = 'GenCodeCmdConvertPtr'

    regs = 'ABC'

    def operand(self, Xc):
        super().operand(Xc)
        Xc.assume(And(ne(self.ob.rC, self.MEMREG, 8), ne(self.ob.rA, self.MEMREG, 8)))

    def call(self, run, m, v):
        E = self.Xc.E
        n = fn_name(E, v, self.Xc) or ''
        ob = lambda nm, g: run.obl.append((nm, m.hyps, g))
        if 'ConvertPtrWrap' not in n:
            raise Unsupported('call to ' + n)
        ob('the check gets the machine state', self.isptr(E, m.g.get(R('RDI')), Ptr('vmstate', 0)))
        ob('the check gets the target type', eq(m.r(R('RSI'), 32), self.ob.arg, 32))
        ob('the check gets the type of the value', eq(m.r(R('RDX'), 32), E.rd(self.E0, Ptr('regs', simp(mul(zext(self.ob.rB, 8, 64), 8, 64))), 4), 32))
        ob('an error is reported at this instruction', eq(E.rd(m.S, Ptr('vmstate', vs('callInstructionPos')), 4), self.pos, 32))
        m.events = m.events + (('checked',),)
        self.clobber_call(m, jit.SAVED)
        return None

    def compare(self, Xc, E0, F, v, sp, leaves):
        E = Xc.E
        for l in leaves:
            hy = l.m.hyps
            yield 'continues with the next instruction', self.imp(hy, l.kind == 'end')
            if l.kind != 'end':
                continue
            yield 'the conversion is checked once', self.imp(hy, len([e for e in l.m.events if e[0] == 'checked']) == 1)
            at = lambda r: simp(mul(zext(r, 8, 64), 8, 64))
            want = E.obj(E0, 'regs')
            want = want.write(at(self.ob.rA), 8, want.read(at(self.ob.rC), 8))
            yield 'the pointer is copied and nothing else changes', self.imp(hy, self.same(Xc, want, E.obj(l.m.S, 'regs'), 2048, self.spare('regs')))
            yield from self.state_same(Xc, 'memory is unchanged (%s)', hy, E0, l.m.S, F, ('regs',))
            yield 'the machine state is otherwise unchanged', self.imp(hy, self.same(Xc, E.obj(F, 'vmstate'), E.obj(l.m.S, 'vmstate'), self.size('vmstate'), [(vs('callInstructionPos'), 4)]))

    def post_(self, Xc, E0, F, ret):
        self.E0 = E0
        yield from super().post_(Xc, E0, F, ret)


class JitNop(Base):
    def __init__(self):
        super().__init__('Nop')
        self.name = 'GenCodeCmdNop'

    def compare(self, Xc, E0, F, v, sp, leaves):
        for l in leaves:
            yield 'continues with the next instruction', self.imp(l.m.hyps, l.kind == 'end')
            yield from self.state_same(Xc, 'memory is unchanged (%s)', l.m.hyps, E0, l.m.S, F)


def prepare():
    K()
    jit.prepare()


def contracts():
    out = [JitNop(), JitConvertPtr()]
    for op in ('Call', 'CallPtr'):
        # the store of arguments and results is shared by both calls: sequences are covered for the direct call
        for a in seqs(PUSHES):
            if op == 'CallPtr' and len(a) > 1:
                continue
            out.append(JitCall(op, a, [], 'Double' if a in (['PushQword'], ['PushQword', 'PushImmq']) else 'Void'))
        for r in ('Double', 'Long', 'Int'):
            out.append(JitCall(op, ['PushQword'], [], r))
            for p in POPS:
                out.append(JitCall(op, ['Push'], [p], r))
        for p in seqs(POPS):
            if p and (op == 'Call' or len(p) == 1):
                out.append(JitCall(op, ['Push'], p, 'Void'))
    for a in seqs(PUSHES):
        out.append(JitReturn('Int', a))
    for r in ('Void', 'Double', 'Long', 'Error', 'Void global', 'Int global', 'Long checked', 'Int checked'):
        out.append(JitReturn(r, [] if 'Error' in r or 'Void' in r else ['PushQword']))
    return out
