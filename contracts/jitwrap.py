"""Functions called from native code: call wrapper, checked pointer conversion, error reports; and the subtype relation both executors use."""
from .common import *
from vc.engine import StopPath
from . import vmcall, checkedret

_k = None
VS = ['ctx', 'callStackTop', 'callInstructionPos', 'tempStackArrayBase', 'dataStackTop', 'jitCodeActive', 'errorHandler', 'instAddress', 'codeLaunchHeader', 'regFileLastTop']


def K():
    global _k
    if _k is None:
        _k = dict(checkedret.K())
        _k.update(build.probe(['stdafx.h', 'InstructionTreeRegVm.h', 'CodeGenRegVm_X86.h', 'Linker.h', 'Executor_X86.h'],
                              ['OFF(CodeGenRegVmStateContext,%s)' % f for f in VS] + ['OFF(CodeGenRegVmContext,%s)' % f for f in ('x86rvm', 'exFunctions', 'exSymbols')]
                              + ['sizeof(ExecutorX86)', 'OFF(ExecutorX86,callContinue)', 'sizeof(CodeGenRegVmCallStackEntry)', 'OFF(CodeGenRegVmCallStackEntry,instruction)', 'OFF(ExternTypeInfo,baseType)',
                                 'NULLC_ERROR_BUFFER_SIZE', 'sizeof(jmp_buf)']))
    return _k


def vs(f):
    return Ptr('vmstate', K()['OFF(CodeGenRegVmStateContext,%s)' % f])


class Wrap(Contract):
    tus = ['CodeGenRegVm_X86.cpp']
    replayable = False

    def stubs(self, Xc):
        def stop(E, st, a, I):
            st.events = st.events + (('stop', a[0]),)

        def jump(E, st, a, I):
            st.events = st.events + (('longjmp', a[0], a[1]),)
            raise StopPath(st)

        def fmt(E, st, a, I):
            st.events = st.events + (('message', a[0], a[1]),)
            return 0
        return {'ExecutorX86::Stop(char const*)': stop, 'longjmp': jump, 'NULLC::SafeSprintf': fmt}

    def base(self, Xc):
        k = K()
        for n, s in (('vmstate', k['sizeof(CodeGenRegVmStateContext)']), ('ctx', k['sizeof(CodeGenRegVmContext)']), ('exec', k['sizeof(ExecutorX86)']), ('calls', 4096)):
            Xc.obj(n, s)
            Xc.align[n] = 16
        Xc.put(vs('ctx'), 8, Ptr('ctx', 0))
        Xc.put(Ptr('ctx', k['OFF(CodeGenRegVmContext,x86rvm)']), 8, Ptr('exec', 0))
        d = Xc.int('depth', 32)
        Xc.assume(ult(d, 64, 32))
        self.top = Ptr('calls', simp(mul(zext(d, 32, 64), k['sizeof(CodeGenRegVmCallStackEntry)'], 64)))
        Xc.put(vs('callStackTop'), 8, self.top)
        self.pos = Xc.E.rd(Xc.st, vs('callInstructionPos'), 4)
        return Ptr('vmstate', 0)

    def error(self, Xc, E0, F):
        """an error was reported: the position is recorded, the executor stopped and the run abandoned"""
        E = Xc.E
        k = K()
        ev = [e[0] for e in F.events]
        st = [e for e in F.events if e[0] == 'stop']
        lj = [e for e in F.events if e[0] == 'longjmp']
        yield 'the executor of this run is stopped with an error', len(st) == 1 and E.icmp('eq', E.pp(st[0][1]), Ptr('exec', 0), ir.PTR)
        yield 'the run is abandoned through its error handler', len(lj) == 1 and And(E.icmp('eq', E.pp(lj[0][1]), vs('errorHandler'), ir.PTR), ne(lj[0][2], 0, 32))
        yield 'the error is reported before the run is abandoned', 'stop' in ev and 'longjmp' in ev and ev.index('stop') < ev.index('longjmp')
        yield 'the position of the error is recorded', eq(E.rd(F, self.top + k['OFF(CodeGenRegVmCallStackEntry,instruction)'], 4), add(self.pos, 1, 32), 32)
        yield 'the record is pushed', E.icmp('eq', E.pp(E.rd(F, vs('callStackTop'), 8)), self.top + k['sizeof(CodeGenRegVmCallStackEntry)'], ir.PTR)
        yield 'other positions are unchanged', unchanged(Xc, E0, F, 'calls', except_=(self.top.off, k['sizeof(CodeGenRegVmCallStackEntry)']))
        yield 'the machine state is otherwise unchanged', unchanged(Xc, E0, F, 'vmstate', except_=(vs('callStackTop').off, 8))


class ErrorWrap(Wrap):
    def __init__(self, fn):
        self.fn = self.name = fn

    def setup(self, Xc):
        return [self.base(Xc)]

    def post(self, Xc, E0, F, ret):
        yield from self.error(Xc, E0, F)


class ConvertPtrWrap(Wrap):
    fn = name = 'ConvertPtrWrap'

    def stubs(self, Xc):
        def conv(E, st, a, I):
            st.events = st.events + (('conv', a[0], a[1]),)
            return b2i(ndbool(E, st, 'convok'), 32)
        d = super().stubs(Xc)
        d['ConvertFromAutoRef'] = conv
        return d

    def setup(self, Xc):
        k = K()
        V = self.base(Xc)
        self.t, self.s = Xc.int('target', 32), Xc.int('source', 32)
        n = 1 << 16
        ts = k['sizeof(ExternTypeInfo)']
        Xc.obj('types', n * ts)
        Xc.obj('symbols', 1 << 20)
        Xc.put(Ptr('ctx', k['OFF(CodeGenRegVmContext,exTypes)']), 8, Ptr('types', 0))
        Xc.put(Ptr('ctx', k['OFF(CodeGenRegVmContext,exSymbols)']), 8, Ptr('symbols', 0))
        for i in (self.t, self.s):
            Xc.assume(ult(i, n, 32))
            o = Xc.E.rd(Xc.st, Ptr('types', simp(add(mul(zext(i, 32, 64), ts, 64), k['OFF(ExternTypeInfo,offsetToName)'], 64))), 4)
            Xc.assume(ult(o, 1 << 20, 32))
        return [V, self.t, self.s]

    def post(self, Xc, E0, F, ret):
        cv = [e for e in F.events if e[0] == 'conv']
        yield 'asks whether the type of the value converts to the target', len(cv) == 1 and And(eq(cv[0][1], self.t, 32), eq(cv[0][2], self.s, 32))
        ok = z3.Bool('nd:convok#0')
        lj = any(e[0] == 'longjmp' for e in F.events)
        yield 'an error exactly when the conversion is not valid', Iff(ok, not lj)
        if lj:
            yield from self.error(Xc, E0, F)
        else:
            yield 'nothing is reported for a valid conversion', not any(e[0] == 'stop' for e in F.events)
            yield 'the machine state is unchanged', unchanged(Xc, E0, F, 'vmstate')
            yield 'the call stack is unchanged', unchanged(Xc, E0, F, 'calls')


class CallWrap(Wrap):
    fn = 'CallWrap'

    def __init__(self, kind):
        self.kind = kind
        self.name = 'CallWrap: ' + kind

    def stubs(self, Xc):
        k = K()
        d = super().stubs(Xc)

        def native(E, st, tag, a):
            """a host function: may report an error, leaves results in the temporary area"""
            st.events = st.events + (((tag,) + tuple(a) + (E.rd(st, vs('jitCodeActive'), 1),)),)
            b = ndbool(E, st, 'continues')
            E.wr(st, Ptr('exec', k['OFF(ExecutorX86,callContinue)']), 1, b2i(b, 8))

        def ind(E, st, name, a, inst=None):
            native(E, st, 'indirect', (name,) + tuple(a))

        def raw(E, st, a, I):
            native(E, st, 'raw', a)
        d['<indirect>'] = ind
        d['RunRawExternalFunction'] = raw
        return d

    def setup(self, Xc):
        k = K()
        E = Xc.E
        V = self.base(Xc)
        n = 64
        fs = k['sizeof(ExternFuncInfo)']
        self.id = Xc.int('function', 32)
        Xc.assume(ult(self.id, n, 32))
        Xc.obj('functab', n * fs)
        Xc.align['functab'] = 16
        Xc.put(Ptr('ctx', k['OFF(CodeGenRegVmContext,exFunctions)']), 8, Ptr('functab', 0))
        at = lambda f: Ptr('functab', simp(add(mul(zext(self.id, 32, 64), fs, 64), k['OFF(ExternFuncInfo,%s)' % f], 64)))
        Xc.obj('temp', 4096)
        Xc.obj('stack', 4096)
        Xc.put(vs('tempStackArrayBase'), 8, Ptr('temp', 0))
        Xc.put(vs('dataStackTop'), 8, Ptr('stack', 64))
        adr = E.rd(Xc.st, at('regVmAddress'), 4)
        w = E.rd(Xc.st, at('funcPtrWrap'), 8)
        self.target = E.rd(Xc.st, at('funcPtrWrapTarget'), 8)
        if self.kind == 'program':
            Xc.assume(ult(adr, 256, 32))
            Xc.obj('inst', 2048)
            Xc.align['inst'] = 16
            Xc.put(vs('instAddress'), 8, Ptr('inst', 0))
            Xc.put(vs('codeLaunchHeader'), 8, Ptr('header', 0))
            self.code = E.rd(Xc.st, Ptr('inst', simp(mul(zext(adr, 32, 64), 8, 64))), 8)
        else:
            Xc.assume(eq(adr, M(32), 32))
            if self.kind == 'wrapped':
                Xc.put(at('funcPtrWrap'), 8, Ptr('host', 0))
            else:
                Xc.put(at('funcPtrWrap'), 8, 0)
        return [V, self.id]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        k = K()
        lj = any(e[0] == 'longjmp' for e in F.events)
        ind = [e for e in F.events if e[0] == 'indirect']
        raw = [e for e in F.events if e[0] == 'raw']
        p = lambda a, q: E.icmp('eq', E.pp(a), q, ir.PTR)
        yield 'the function is called once', len(ind) + len(raw) == 1
        if len(ind) + len(raw) != 1:
            return
        if self.kind == 'raw':
            yield 'through the raw call', len(raw) == 1
            if raw:
                a = raw[0][1:-1]
                yield 'the callee', p(a[1], Ptr('functab', simp(mul(zext(self.id, 32, 64), k['sizeof(ExternFuncInfo)'], 64))))
                yield 'arguments come from the top of the data stack', p(a[5], Ptr('stack', 64))
                yield 'results go to the temporary area', p(a[6], Ptr('temp', 0))
        else:
            yield 'through its address', len(ind) == 1
            if not ind:
                return
            nm, a = ind[0][1], ind[0][2:-1]
            if self.kind == 'wrapped':
                yield 'the callee', p(nm, Ptr('host', 0))
                yield 'its context', eq(E.p2i(E.pp(a[0])), E.p2i(E.pp(self.target)), 64)
                yield 'results go to the temporary area', p(a[1], Ptr('temp', 0))
                yield 'arguments come from the top of the data stack', p(a[2], Ptr('stack', 64))
            else:
                yield 'through the launch code', p(nm, Ptr('header', 0))
                yield 'code of the function', eq(E.p2i(E.pp(a[0])), E.p2i(E.pp(self.code)), 64)
                yield 'registers of the function', eq(E.p2i(E.pp(a[1])), E.p2i(E.pp(E.rd(E0, vs('regFileLastTop'), 8))), 64)
        act = (ind + raw)[0][-1]
        if self.kind == 'program':
            yield 'no error is raised here', not lj
            yield 'the machine state is unchanged', unchanged(Xc, E0, F, 'vmstate')
        else:
            yield 'host code does not run as native code', eq(act, 0, 8)
            yield 'native code is active again', ne(E.rd(F, vs('jitCodeActive'), 1), 0, 8)
            yield 'the run is abandoned exactly when the host function stopped it', Iff(z3.Bool('nd:continues#0'), not lj)
            yield 'the machine state is otherwise unchanged', unchanged(Xc, E0, F, 'vmstate', except_=(vs('jitCodeActive').off, 1))
        yield 'the call stack is unchanged', unchanged(Xc, E0, F, 'calls')


class Subtype(Contract):
    """a reference converts to its own type and to every base class, directly or indirectly"""
    tus = ['Executor_Common.cpp']
    fn = name = 'ConvertFromAutoRef'
    cut_all = True
    replayable = False

    def setup(self, Xc):
        k = K()
        self.t, self.s = Xc.int('target', 32), Xc.int('source', 32)
        self.n = Xc.int('types', 32)
        Xc.assume(And(ule(self.n, 1 << 20, 32), ult(self.s, self.n, 32)))
        self.ts = k['sizeof(ExternTypeInfo)']
        Xc.obj('types', simp(mul(zext(self.n, 32, 64), self.ts, 64)))
        Xc.obj('linker', k['sizeof(Linker)'])
        vmcall.fv(Xc, Ptr('linker', k['OFF(Linker,exTypes)']), Ptr('types', 0), self.n, self.n)
        Xc.put(Ptr('g::_ZN5NULLC12commonLinkerE', 0), 8, Ptr('linker', 0))
        self.isa = UF('isa', [32, 32], 1)
        self.E0 = Xc.st.copy()
        self.E = Xc.E
        Xc.assume(self.unfold(self.s))
        return [self.t, self.s]

    def base(self, i):
        return self.E.rd(self.E0, Ptr('types', simp(add(mul(zext(i, 32, 64), self.ts, 64), K()['OFF(ExternTypeInfo,baseType)'], 64))), 4)

    def rel(self, i):
        return self.isa(bv(i, 32), bv(self.t, 32)) == 1

    def unfold(self, i):
        """definition of the relation; the base class of a type is a type"""
        b = self.base(i)
        return And(Iff(self.rel(i), Or(eq(i, self.t, 32), And(ne(b, 0, 32), self.rel(b)))), ult(b, self.n, 32))

    def templates(self, E, f, header, view):
        out = []
        for a, w, i, c, s in view.phis:
            if w != 32:
                continue

            def fn(v, a=a):
                d = {x: c for x, w, i, c, s in v.phis}
                return And(Iff(self.rel(d[a]), self.rel(self.s)), ne(d[a], self.t, 32), ult(d[a], self.n, 32))

            def facts(v, a=a):
                d = {x: c for x, w, i, c, s in v.phis}
                b = self.base(d[a])
                return And(self.unfold(d[a]), self.unfold(b))
            out.append(('isa %s' % a, fn, facts))
        return out

    def post(self, Xc, E0, F, ret):
        yield 'converts exactly to the type itself and its base classes', Iff(ne(ret, 0, 32), self.rel(self.s))
        yield 'types unchanged', unchanged(Xc, E0, F, 'types')


def prepare():
    K()


def contracts_sub():
    return [Subtype()]


def contracts():
    return [ErrorWrap('ErrorOutOfBoundsWrap'), ErrorWrap('ErrorNoReturnWrap'), ConvertPtrWrap(), CallWrap('wrapped'), CallWrap('raw'), CallWrap('program')]
