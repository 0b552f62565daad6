"""Interpreter calls, returns and checked pointer conversion: ExecutorRegVm::ExecCall, ExecReturn, ExecConvertPtr, ExecNop."""
from .common import *
from . import interp

TU = 'Executor_RegVm.cpp'
NARG = 16384        # words in the call argument area
RVMI = ['Call', 'Return', 'Push', 'PushQword', 'PushImm', 'PushImmq', 'PushMem', 'Pop', 'Popq', 'PopMem']
RVR = ['Void', 'Double', 'Long', 'Int', 'Error']
_k = None
FF = ['regVmAddress', 'argumentSize', 'stackSize', 'regVmRegisters', 'funcPtrWrap', 'funcPtrWrapTarget']
EF = ['exTypes', 'exFunctions', 'exLinker', 'dataStack', 'codeBase', 'callStack', 'tempStackArrayBase', 'tempStackArrayEnd', 'regFileArrayBase', 'regFileLastTop',
      'regFileArrayEnd', 'callContinue', 'codeRunning', 'lastFinalReturn', 'execErrorBuffer', 'execErrorMessage', 'breakCode', 'breakFunction', 'breakFunctionContext']


def K():
    global _k
    if _k is None:
        ex = ['rvmi' + x for x in RVMI] + ['rvr' + x for x in RVR] + ['sizeof(ExecutorRegVm)', 'sizeof(Linker)', 'sizeof(ExternFuncInfo)', 'sizeof(FastVector<int>)',
                                                                      'OFF(FastVector<int>,data)', 'OFF(FastVector<int>,max)', 'OFF(FastVector<int>,count)',
                                                                      'OFF(Linker,exRegVmConstants)', 'OFF(Linker,exTypes)', 'OFF(Linker,exSymbols)', 'OFF(Linker,exRegVmCode)', 'sizeof(ExternTypeInfo)', 'OFF(ExternTypeInfo,offsetToName)',
                                                                      'rvrrGlobals', 'rvrrFrame', 'rvrrConstants', 'rvrrRegisters', 'rvrrCount', 'rviNop',
                                                                      'ExecutorRegVm::EXEC_BREAK_SIGNAL', 'ExecutorRegVm::EXEC_BREAK_RETURN', 'ExecutorRegVm::EXEC_BREAK_ONCE']
        ex += ['OFF(ExternFuncInfo,%s)' % f for f in FF]
        # a reference member has no offsetof: it sits right behind the linker pointer
        ex += ['OFF(ExecutorRegVm,%s)' % f for f in EF if f not in ('exTypes', 'exFunctions')]
        _k = build.probe(['stdafx.h', 'Executor_RegVm.h', 'Linker.h'], ex)
        _k['OFF(ExecutorRegVm,exTypes)'] = _k['OFF(ExecutorRegVm,exLinker)'] + 8
        _k['OFF(ExecutorRegVm,exFunctions)'] = _k['OFF(ExecutorRegVm,exLinker)'] + 16
    return _k


def ro(f):
    return K()['OFF(ExecutorRegVm,%s)' % f]


def fv(Xc, p, data, count, max_):
    k = K()
    Xc.put(p + k['OFF(FastVector<int>,data)'], 8, data)
    Xc.put(p + k['OFF(FastVector<int>,max)'], 4, max_)
    Xc.put(p + k['OFF(FastVector<int>,count)'], 4, count)


def op_words(op, name, Xc, c):
    """microcode words of one operation with arbitrary operands; returns (words, record)"""
    k = K()
    code = k['rvmi' + op]
    if op in ('Push', 'PushQword', 'Pop', 'Popq'):
        r = Xc.int(name + '.reg', 8)
        Xc.assume(ult(r, c.nreg, 8))
        return [code, zext(r, 8, 32)], (op, r)
    if op in ('PushImm', 'PushImmq'):
        v = Xc.int(name + '.imm', 32)
        return [code, v], (op, v)
    off = Xc.int(name + '.off', 32)
    size = Xc.int(name + '.size', 32)
    Xc.assume(And(ule(size, 4096, 32), eq(and_(size, 3, 32), 0, 32), ule(off, 4096, 32)))
    return [code, c.MEMREG, off, size], (op, off, size)


class VmBase(Contract):
    tus = [TU]
    MEMREG = 40
    nreg = 60
    timeout = 30000
    funcs = 5

    def base(self, Xc):
        """an executor in the middle of running a function"""
        k = K()
        E = Xc.E
        c = self
        c.cs_count = Xc.int('callStack.count', 32)
        c.cs_max = Xc.int('callStack.max', 32)
        Xc.assume(And(ult(c.cs_count, c.cs_max, 32), ule(c.cs_max, 1 << 16, 32)))
        c.ds_count = Xc.int('dataStack.count', 32)
        c.ds_max = Xc.int('dataStack.max', 32)
        Xc.assume(And(ule(c.ds_count, c.ds_max, 32), ule(c.ds_max, 1 << 28, 32), eq(and_(c.ds_count, 15, 32), 0, 32)))
        Xc.softs.append(ule(c.ds_max, 4096, 32)) if not Xc.concrete else None
        c.top = c.nreg if getattr(c, 'fixed', False) else Xc.int('regTop', 32)      # first free register
        c.nregs = Xc.int('regCount', 32)
        Xc.assume(And(ule(c.nregs, 1 << 15, 32), uge(c.top, c.nreg, 32), ult(c.top, c.nregs, 32)))
        c.cur = Xc.int('instruction', 32)
        Xc.assume(ult(c.cur, 1 << 20, 32))
        Xc.obj('rvm', k['sizeof(ExecutorRegVm)'])
        Xc.obj('linker', k['sizeof(Linker)'])
        Xc.obj('regs', simp(mul(zext(c.nregs, 32, 64), 8, 64)))
        Xc.obj('temp', NARG * 4)
        Xc.obj('stack', simp(zext(c.ds_max, 32, 64)))
        Xc.obj('calls', simp(mul(zext(c.cs_max, 32, 64), 8, 64)))
        Xc.obj('code', 1 << 24)
        Xc.obj('mem', 8192)
        Xc.obj('functab', self.funcs * k['sizeof(ExternFuncInfo)'])
        Xc.obj('funcvec', 16)
        for o in ('rvm', 'linker', 'regs', 'temp', 'stack', 'calls', 'code', 'mem', 'functab', 'funcvec'):
            Xc.align[o] = 16
        R = Ptr('rvm', 0)
        fv(Xc, Ptr('funcvec', 0), Ptr('functab', 0), self.funcs, self.funcs)
        fv(Xc, R + ro('dataStack'), Ptr('stack', 0), c.ds_count, c.ds_max)
        fv(Xc, R + ro('callStack'), Ptr('calls', 0), c.cs_count, c.cs_max)
        for f, v in (('exLinker', Ptr('linker', 0)), ('exFunctions', Ptr('funcvec', 0)), ('exTypes', Ptr('linker', k['OFF(Linker,exTypes)'])), ('codeBase', Ptr('code', 0)),
                     ('tempStackArrayBase', Ptr('temp', 0)), ('tempStackArrayEnd', Ptr('temp', NARG * 4)), ('regFileArrayBase', Ptr('regs', 0)),
                     ('regFileLastTop', Ptr('regs', simp(mul(zext(c.top, 32, 64), 8, 64)))), ('regFileArrayEnd', Ptr('regs', simp(mul(zext(c.nregs, 32, 64), 8, 64))))):
            Xc.put(R + ro(f), 8, v)
        c.callContinue = Xc.bool('callContinue')
        Xc.put(R + ro('callContinue'), 1, b2i(c.callContinue, 8))
        # the registers of the running function start at register 0 of the file
        Xc.put(Ptr('regs', self.MEMREG * 8), 8, Ptr('mem', 0))
        c.instr = Ptr('code', simp(mul(zext(c.cur, 32, 64), 8, 64)))
        return R

    def consts(self, Xc, words, name='consts'):
        n = len(words) * 4
        Xc.obj(name, n)
        Xc.align[name] = 16
        for i, w in enumerate(words):
            Xc.put(Ptr(name, 4 * i), 4, w)
        fv(Xc, Ptr('linker', K()['OFF(Linker,exRegVmConstants)']), Ptr(name, 0), len(words), len(words))

    def lookup(self, Xc, S, r):
        return Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64)))

    def push_effect(self, Xc, S, recs, obj):
        """contents of the argument area after the pushes; returns (obj, total size)"""
        E = Xc.E
        off = 0
        for rec in recs:
            op = rec[0]
            if op == 'Push':
                obj = obj.write(off, 4, E.rd(S, self.lookup(Xc, S, rec[1]), 4))
                off = add(off, 4, 64)
            elif op == 'PushQword':
                obj = obj.write(off, 8, E.rd(S, self.lookup(Xc, S, rec[1]), 8))
                off = add(off, 8, 64)
            elif op == 'PushImm':
                obj = obj.write(off, 4, rec[1])
                off = add(off, 4, 64)
            elif op == 'PushImmq':
                obj = obj.write(off, 8, zext(rec[1], 32, 64))
                off = add(off, 8, 64)
            else:
                src = E.obj(S, 'mem')
                o, n = zext(rec[1], 32, 64), zext(rec[2], 32, 64)
                obj = obj.write_block(off, n, lambda d, src=src, o=o: src.byte(simp(add(o, d, 64))))
                off = add(off, n, 64)
            off = simp(off)
        return obj, off

    def same(self, Xc, name, a, b, n):
        return forall(Xc, name, n, lambda i: eq(simp(a.byte(i)), simp(b.byte(i)), 8))

    def frame(self, Xc, E0, F, skip):
        for b in ('rvm', 'linker', 'regs', 'temp', 'stack', 'calls', 'code', 'mem', 'functab', 'funcvec', 'consts'):
            if b in skip or b not in E0.mem:
                continue
            yield b + ' unchanged', unchanged(Xc, E0, F, b)

    def field(self, Xc, S, f, n):
        return Xc.E.rd(S, Ptr('rvm', ro(f)), n)

    def rvm_frame(self, Xc, E0, F, fields):
        """executor fields other than the given (offset,size) ranges are unchanged"""
        E = Xc.E
        a, b = E.obj(E0, 'rvm'), E.obj(F, 'rvm')
        if a is b:
            return True

        def body(i):
            return Or(eq(simp(a.byte(i)), simp(b.byte(i)), 8), *[ult(sub(i, o, 64), n, 64) for o, n in fields])
        return forall(Xc, 'rvmframe', K()['sizeof(ExecutorRegVm)'], body)


def seqs(ops):
    return [[]] + [[a] for a in ops] + [[a, b] for a in ops for b in ops]


PUSHES = ['Push', 'PushQword', 'PushImm', 'PushImmq', 'PushMem']
POPS = ['Pop', 'Popq', 'PopMem']
OFFC = lambda f: K()['OFF(FastVector<int>,%s)' % f]


def stop_stub(E, st, a, I):
    """ExecutorRegVm::Stop(const char*): records the error"""
    msg = interp.cstring(E, st, a[1]).lower()
    st.events = st.events + (('stop', msg.decode()),)
    E.wr(st, Ptr('rvm', ro('callContinue')), 1, 0)
    E.wr(st, Ptr('rvm', ro('codeRunning')), 1, 0)
    return None


class ExecCall(VmBase):
    fn = 'ExecutorRegVm::ExecCall'

    def __init__(self, args, pops, result, external):
        self.args, self.pops, self.result, self.external = args, pops, result, external
        self.name = 'ExecCall %s(%s) -> %s [%s]' % ({'': 'script function', 'wrap': 'native function', 'raw': 'raw native function'}[external], ', '.join(args), result, ', '.join(pops))

    def stubs(self, Xc):
        def run(E, st, a, I):
            k = K()
            top = E.pp(a[1])
            ins = E.pp(a[0])
            st.events = st.events + (('run', ins.base, ins.off, top.base, top.off, E.pp(a[2]).base, E.pp(a[3]).base, st.copy()),)
            ok = ndbool(E, st, 'runok')
            # the callee returns its result in the argument area and pops its own return address
            self.write_result(E, st)
            n = E.rd(st, Ptr('rvm', ro('callStack') + OFFC('count')), 4)
            E.wr(st, Ptr('rvm', ro('callStack') + OFFC('count')), 4, sub(n, 1, 32))
            if E.concrete_map is not None:
                return k['rvr' + self.result] if ok else k['rvrError']
            s2 = st.copy()
            s2.pc = s2.pc + (z3.Not(ok),)
            st.pc = st.pc + (ok,)
            return [(st, k['rvr' + self.result]), (s2, k['rvrError'])]

        def wrap(E, st, t, a, I):
            x, y = E.pp(a[1]), E.pp(a[2])
            st.events = st.events + (('native', E.p2i(t), E.p2i(E.pp(a[0])), x.base, x.off, y.base, y.off, st.copy()),)
            self.write_result(E, st)
            ok = ndbool(E, st, 'nativeok')
            E.wr(st, Ptr('rvm', ro('callContinue')), 1, b2i(ok, 8))
            st.ghost['ok'] = ok
            return None

        def raw(E, st, a, I):
            p = E.pp(a[2])
            st.events = st.events + (('raw', a[1], p.base, p.off, st.copy()),)
            self.write_result(E, st)
            ok = ndbool(E, st, 'rawok')
            st.ghost['ok'] = ok
            return ok
        return {'ExecutorRegVm::RunCode': run, 'ExecutorRegVm::Stop(char const*)': stop_stub, '<indirect>': wrap, 'ExecutorRegVm::RunExternalFunction': raw}

    def write_result(self, E, st):
        for i, v in enumerate(self.res):
            E.wr(st, Ptr('temp', 8 * i), 8, v)

    def setup(self, Xc):
        k = K()
        if self.external and Xc.concrete:
            raise Unsupported('native callee in replay')
        # sequences that write through a pointer register use a fixed register layout, so that the pointer stays a known object
        self.fixed = 'PopMem' in self.pops
        R = self.base(Xc)
        self.res = [Xc.int('result%d' % i, 64) for i in range(2)]
        words, self.recs, self.prec = [], [], []
        skip = Xc.int('junk', 32)
        words.append(skip)
        for i, op in enumerate(self.args):
            w, r = op_words(op, 'arg%d' % i, Xc, self)
            words += w
            self.recs.append(r)
        words.append(k['rvmiCall'])
        if self.fixed:
            self.rr = 5
        else:
            self.rr = Xc.int('resultReg', 8)
            Xc.assume(ult(self.rr, self.nreg, 8))
        junk = Xc.int('junk2', 24)
        words.append(or_(zext(self.rr, 8, 32), shl(zext(junk, 24, 32), 8, 32), 32))
        words.append(or_(k['rvr' + self.result], shl(zext(junk, 24, 32), 8, 32), 32))
        for i, op in enumerate(self.pops):
            w, r = op_words(op, 'pop%d' % i, Xc, self)
            if self.fixed and op != 'PopMem':
                w, r = [w[0], 7 + i], (op, 7 + i)
            if op == 'PopMem':
                Xc.assume(ule(r[2], 8 if len(self.pops) > 1 else 16, 32))
            # the pointer an operation uses is not itself overwritten by the call result
            words += w
            self.prec.append(r)
        words.append(k['rvmiReturn'])
        self.consts(Xc, words)
        E = Xc.E
        _, self.total = self.push_effect(Xc, Xc.st, self.recs, E.obj(Xc.st, 'temp'))
        fid = 3
        t = Ptr('functab', fid * k['sizeof(ExternFuncInfo)'])
        self.stackSize = Xc.int('stackSize', 32)
        self.rcount = Xc.int('regVmRegisters', 32)
        self.addr = Xc.int('regVmAddress', 32)
        Xc.assume(And(ule(self.stackSize, 1 << 24, 32), ule(trunc(self.total, 64, 32), self.stackSize, 32), uge(self.rcount, k['rvrrCount'], 32), ule(self.rcount, 256, 32)))
        of = lambda f: t + k['OFF(ExternFuncInfo,%s)' % f]
        if self.external:
            self.addr = M(32)
            self.wfn = Xc.int('funcPtrWrap', 64)
            self.wctx = Xc.int('funcPtrWrapTarget', 64)
            if self.external == 'raw':
                self.wfn = 0
            else:
                # not a null pointer and not one of the modelled objects
                Xc.assume(And(ne(self.wfn, 0, 64), ult(self.wfn, 1 << 40, 64), ult(self.wctx, 1 << 40, 64)))
            Xc.put(of('funcPtrWrap'), 8, self.wfn)
            Xc.put(of('funcPtrWrapTarget'), 8, self.wctx)
        else:
            Xc.assume(ult(self.addr, 1 << 20, 32))
        Xc.put(of('regVmAddress'), 4, self.addr)
        Xc.put(of('argumentSize'), 4, trunc(self.total, 64, 32))
        Xc.put(of('stackSize'), 4, self.stackSize)
        Xc.put(of('regVmRegisters'), 4, self.rcount)
        return [R, 1, fid, self.instr, Ptr('regs', 0)]

    def expected_regs(self, Xc, S):
        """caller registers and memory after the results were taken"""
        E = Xc.E
        regs, mem = E.obj(S, 'regs'), E.obj(S, 'mem')
        o = simp(mul(zext(self.rr, 8, 64), 8, 64))
        if self.result in ('Double', 'Long'):
            regs = regs.write(o, 8, self.res[0])
        elif self.result == 'Int':
            regs = regs.write(o, 4, trunc(self.res[0], 64, 32))
        tb = Obj('tmp', 16, ('zero',), conv=E.p2i)
        for i, v in enumerate(self.res):
            tb = tb.write(8 * i, 8, v)
        pos = 0
        for rec in self.prec:
            if rec[0] == 'Pop':
                regs = regs.write(simp(mul(zext(rec[1], 8, 64), 8, 64)), 4, tb.read(pos, 4))
                pos = add(pos, 4, 64)
            elif rec[0] == 'Popq':
                regs = regs.write(simp(mul(zext(rec[1], 8, 64), 8, 64)), 8, tb.read(pos, 8))
                pos = add(pos, 8, 64)
            else:
                mo, n = zext(rec[1], 32, 64), zext(rec[2], 32, 64)
                mem = mem.write_block(mo, n, lambda d, pos=pos, tb=tb: tb.byte(simp(add(pos, d, 64))))
                pos = add(pos, n, 64)
            pos = simp(pos)
        return regs, mem

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        k = K()
        ev = F.events
        run = [e for e in ev if e[0] == 'run']
        nat = [e for e in ev if e[0] in ('native', 'raw')]
        stops = [e for e in ev if e[0] == 'stop']
        fsize = and_(add(self.stackSize, 15, 32), M(32) - 15, 32)
        over = uge(add(zext(self.ds_count, 32, 64), zext(fsize, 32, 64), 64), zext(self.ds_max, 32, 64), 64)
        rover = uge(add(self.top, self.rcount, 32), self.nregs, 32)
        R = lambda f, n: E.rd(F, Ptr('rvm', ro(f)), n)
        csc = E.rd(F, Ptr('rvm', ro('callStack') + OFFC('count')), 4)
        dsc = E.rd(F, Ptr('rvm', ro('dataStack') + OFFC('count')), 4)
        retaddr = lambda S: E.rd(S, Ptr('calls', simp(mul(zext(self.cs_count, 32, 64), 8, 64))), 8)
        isnext = lambda v: E.icmp('eq', E.pp(v), self.instr + 8, ir.PTR)
        if not self.external and stops:
            yield 'a stack overflow is reported exactly when the frame does not fit', And(len(stops) == 1, not run, Or(over, rover), Implies('stack overflow' in stops[0][1], over))
            yield 'a failed call reports failure', eq(b2i(ret, 8), 0, 8)
            yield 'caller registers unchanged', self.same(Xc, 'r', E.obj(E0, 'regs'), E.obj(F, 'regs'), simp(mul(zext(self.top, 32, 64), 8, 64)))
            yield 'other memory unchanged', unchanged(Xc, E0, F, 'mem')
            yield 'live stack unchanged', self.same(Xc, 's', E.obj(E0, 'stack'), E.obj(F, 'stack'), zext(self.ds_count, 32, 64))
            return
        yield 'no error reported', not stops
        if self.external:
            yield 'the native function runs once', And(len(nat) == 1, not run)
            if len(nat) != 1:
                return
            e = nat[0]
            S = e[-1]
            if self.external == 'wrap':
                yield 'native function gets its context and arguments', And(e[0] == 'native', eq(e[1], self.wfn, 64), eq(e[2], self.wctx, 64), e[3] == 'temp', eq(e[4], 0, 64), e[5] == 'temp', eq(e[6], 0, 64))
            else:
                yield 'native function gets its arguments', And(e[0] == 'raw', eq(e[1], 3, 32), e[2] == 'temp', eq(e[3], 0, 64))
            want, total = self.push_effect(Xc, E0, self.recs, E.obj(E0, 'temp'))
            yield 'arguments are the pushed operands', self.same(Xc, 'a', want, E.obj(S, 'temp'), total)
            yield 'return address recorded during the call', And(eq(E.rd(S, Ptr('rvm', ro('callStack') + OFFC('count')), 4), add(self.cs_count, 1, 32), 32), isnext(retaddr(S)))
            ok = F.ghost.get('ok')
            yield 'succeeds exactly when the native function did', Iff(ne(b2i(ret, 8), 0, 8), ok)
            # on failure the caller is abandoned
            good = ok
        else:
            yield 'the function body runs once', And(len(run) == 1, not nat)
            if len(run) != 1:
                return
            e = run[0]
            S = e[-1]
            yield 'runs only when its frame fits', And(Not(over), Not(rover))
            yield 'starts at the function body with fresh registers', And(e[1] == 'code', eq(e[2], simp(mul(zext(self.addr, 32, 64), 8, 64)), 64), e[3] == 'regs', eq(e[4], simp(mul(zext(self.top, 32, 64), 8, 64)), 64), e[5] == 'rvm', e[6] == 'code')
            want, total = self.push_effect(Xc, E0, self.recs, E.obj(E0, 'temp'))
            st0 = E.obj(E0, 'stack')
            wst = st0.write_block(zext(self.ds_count, 32, 64), zext(fsize, 32, 64), lambda d: ite(ult(d, total, 64), want.byte(d), 0, 8))
            yield 'frame holds the arguments and is otherwise zero', self.same(Xc, 'f', wst, E.obj(S, 'stack'), zext(self.ds_max, 32, 64))
            yield 'frame size', eq(E.rd(S, Ptr('rvm', ro('dataStack') + OFFC('count')), 4), add(self.ds_count, fsize, 32), 32)
            yield 'return address recorded during the call', And(eq(E.rd(S, Ptr('rvm', ro('callStack') + OFFC('count')), 4), add(self.cs_count, 1, 32), 32), isnext(retaddr(S)))
            tb = simp(mul(zext(self.top, 32, 64), 8, 64))
            wr = E.obj(E0, 'regs').write_block(tb, simp(mul(zext(self.rcount, 32, 64), 8, 64)), lambda d: 0)
            for nm, v in (('rvrrGlobals', Ptr('stack', 0)), ('rvrrFrame', Ptr('stack', zext(self.ds_count, 32, 64))), ('rvrrConstants', Ptr('consts', 0)), ('rvrrRegisters', Ptr('regs', tb))):
                wr = wr.write(simp(add(tb, 8 * k[nm], 64)), 8, E.p2i(v))
            yield 'callee registers initialised, caller registers kept', self.same(Xc, 'cr', wr, E.obj(S, 'regs'), simp(mul(zext(self.nregs, 32, 64), 8, 64)))
            yield 'callee registers reserved', E.icmp('eq', E.pp(E.rd(S, Ptr('rvm', ro('regFileLastTop')), 8)), Ptr('regs', simp(add(tb, mul(zext(self.rcount, 32, 64), 8, 64), 64))), ir.PTR)
            ok = [c for c in [E.ndvals.get('nd:runok#0', False)]][0] if Xc.concrete else z3.Bool('nd:runok#0')
            yield 'succeeds exactly when the function body did', Iff(ne(b2i(ret, 8), 0, 8), ok)
            good = ok
        wregs, wmem = self.expected_regs(Xc, E0 if self.external else S)
        if Xc.concrete and not good:
            return
        lim = simp(mul(zext(self.nregs, 32, 64), 8, 64)) if not self.external else simp(mul(zext(self.top, 32, 64), 8, 64))
        yield 'caller receives the result and nothing else changes', Implies(good, self.same(Xc, 'g', wregs, E.obj(F, 'regs'), lim))
        yield 'memory receives the aggregate result and is otherwise unchanged', Implies(good, self.same(Xc, 'm', wmem, E.obj(F, 'mem'), 8192))
        yield 'call stack balanced', Implies(good, eq(csc, self.cs_count, 32))
        yield 'stack frame released', Implies(good, eq(dsc, self.ds_count, 32))
        yield 'registers released', Implies(good, E.icmp('eq', E.pp(R('regFileLastTop', 8)), Ptr('regs', simp(mul(zext(self.top, 32, 64), 8, 64))), ir.PTR))


class ExecReturn(VmBase):
    fn = 'ExecutorRegVm::ExecReturn'

    def __init__(self, ops, kind):
        self.ops, self.kind = ops, kind
        self.name = 'ExecReturn %s [%s]' % (kind, ', '.join(ops))

    def stubs(self, Xc):
        def checked(E, st, a, I):
            p = E.pp(a[2])
            st.events = st.events + (('checked', a[1], p.base, p.off, st.copy()),)
            return ndbool(E, st, 'copied')
        return {'ExecutorRegVm::Stop(char const*)': stop_stub, 'ExecutorRegVm::ExecCheckedReturn': checked}

    def setup(self, Xc):
        k = K()
        R = self.base(Xc)
        ki = interp.K()
        self.typeId = Xc.int('typeId', 32)
        words = [Xc.int('junk', 32), self.typeId, Xc.int('typeSize', 32)]
        self.recs = []
        for i, op in enumerate(self.ops):
            w, r = op_words(op, 'ret%d' % i, Xc, self)
            words += w
            self.recs.append(r)
        words.append(k['rvmiReturn'])
        self.consts(Xc, words)
        self.final = Xc.int('lastFinalReturn', 32)
        Xc.assume(ule(self.final, self.cs_count, 32))
        Xc.put(R + ro('lastFinalReturn'), 4, self.final)
        self.rC = Xc.int('rC', 8)
        w = 0
        for f, wd, v in (('code', 8, ki['rviReturn']), ('rA', 8, Xc.int('rA', 8)), ('rB', 8, k['rvr' + self.kind]), ('rC', 8, self.rC), ('argument', 32, 1)):
            w = or_(w, shl(zext(v, wd, 64), 8 * ki['OFF(RegVmCmd,%s)' % f], 64), 64)
        return [R, simp(w), self.instr, Ptr('regs', 0)]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        k = K()
        stops = [e for e in F.events if e[0] == 'stop']
        chk = [e for e in F.events if e[0] == 'checked']
        csc = E.rd(F, Ptr('rvm', ro('callStack') + OFFC('count')), 4)
        yield 'registers unchanged', unchanged(Xc, E0, F, 'regs')
        yield 'memory unchanged', unchanged(Xc, E0, F, 'mem')
        yield 'stack unchanged', unchanged(Xc, E0, F, 'stack')
        run = lambda S: ne(E.rd(S, Ptr('rvm', ro('codeRunning')), 1), 0, 8)
        if self.kind == 'Error':
            # falling off the end: an error inside a function, a normal end for the main program
            inner = ne(self.cs_count, 0, 32)
            yield 'a function that ends without a value is an error', Iff(inner, len(stops) == 1)
            yield 'result of running off the end', eq(ret, ite(inner, k['rvrError'], k['rvrVoid'], 32), 32)
            yield 'execution stops', Not(run(F))
            return
        yield 'no error is reported here', not stops
        # a failed copy of a returned local stops the program
        failed = False
        if chk:
            failed = not Xc.E.ndvals.get('nd:copied#0', False) if Xc.concrete else Not(z3.Bool('nd:copied#0'))
        yield 'result kind', eq(ret, ite(failed, k['rvrError'], k['rvr' + self.kind], 32), 32)
        if self.kind != 'Void':
            want, total = self.push_effect(Xc, E0, self.recs, E.obj(E0, 'temp'))
            yield 'result is the returned operands', self.same(Xc, 't', want, E.obj(F, 'temp'), NARG * 4)
            yield 'references to the frame are checked exactly when asked', Iff(ne(self.rC, 0, 8), len(chk) == 1)
            if len(chk) == 1:
                e = chk[0]
                yield 'reference check gets the returned type', And(eq(e[1], self.typeId, 32), e[2] == 'regs', eq(e[3], 0, 64))
        else:
            yield 'no result written', unchanged(Xc, E0, F, 'temp')
        last = eq(self.cs_count, self.final, 32)
        yield 'one frame is popped unless this was the entry frame', Or(failed, eq(csc, ite(last, self.cs_count, sub(self.cs_count, 1, 32), 32), 32))
        stopsrun = And(last, eq(self.final, 0, 32))
        yield 'execution stops exactly when the outermost frame returns', Or(failed, Iff(run(F), And(run(E0), Not(stopsrun))))
        yield 'executor state otherwise unchanged', Or(failed, self.rvm_frame(Xc, E0, F, [(ro('callStack') + OFFC('count'), 4), (ro('codeRunning'), 1)]))


class ExecConvertPtr(VmBase):
    fn = 'ExecutorRegVm::ExecConvertPtr'
    name = 'ExecConvertPtr'
    convw = 32
    replayable = False

    def stubs(self, Xc):
        def conv(E, st, a, I):
            st.events = st.events + (('conv', a[0], a[1]),)
            return b2i(ndbool(E, st, 'convok'), self.convw)

        def spr(E, st, a, I):
            st.events = st.events + (('message',),)
            return 0
        return {'ConvertFromAutoRef': conv, 'NULLC::SafeSprintf': spr}

    def setup(self, Xc):
        k = K()
        R = self.base(Xc)
        ki = interp.K()
        L = Ptr('linker', 0)
        self.nt = Xc.int('types', 32)
        Xc.assume(ule(self.nt, 1 << 20, 32))
        ts = k['sizeof(ExternTypeInfo)']
        Xc.obj('types', simp(mul(zext(self.nt, 32, 64), ts, 64)))
        self.nsym = Xc.int('symbols', 32)
        Xc.obj('symbols', zext(self.nsym, 32, 64))
        fv(Xc, L + k['OFF(Linker,exTypes)'], Ptr('types', 0), self.nt, self.nt)
        fv(Xc, L + k['OFF(Linker,exSymbols)'], Ptr('symbols', 0), self.nsym, self.nsym)
        Xc.put(R + ro('execErrorBuffer'), 8, Xc.obj('errbuf', 8192))
        self.rA, self.rB, self.rC = Xc.int('rA', 8), Xc.int('rB', 8), Xc.int('rC', 8)
        self.arg = Xc.int('argument', 32)
        for r in (self.rA, self.rB, self.rC):
            Xc.assume(ult(r, self.nreg, 8))
        E = Xc.E
        self.tid = E.rd(Xc.st, Ptr('regs', simp(mul(zext(self.rB, 8, 64), 8, 64))), 4)
        Xc.assume(And(ult(self.tid, self.nt, 32), ult(self.arg, self.nt, 32)))
        # names of the types lie inside the symbol table
        for t in (self.tid, self.arg):
            o = E.rd(Xc.st, Ptr('types', simp(add(mul(zext(t, 32, 64), ts, 64), k['OFF(ExternTypeInfo,offsetToName)'], 64))), 4)
            Xc.assume(ult(o, self.nsym, 32))
        w = 0
        for f, wd, v in (('code', 8, ki['rviConvertPtr']), ('rA', 8, self.rA), ('rB', 8, self.rB), ('rC', 8, self.rC), ('argument', 32, self.arg)):
            w = or_(w, shl(zext(v, wd, 64), 8 * ki['OFF(RegVmCmd,%s)' % f], 64), 64)
        return [R, simp(w), self.instr, Ptr('regs', 0)]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        cv = [e for e in F.events if e[0] == 'conv']
        yield 'asks once whether the conversion is valid', And(len(cv) == 1, eq(cv[0][1], self.arg, 32), eq(cv[0][2], self.tid, 32)) if cv else False
        ok = z3.Bool('nd:convok#0')
        yield 'succeeds exactly when the conversion is valid', Iff(ne(b2i(ret, 8), 0, 8), ok)
        regs = E.obj(E0, 'regs')
        src = E.rd(E0, Ptr('regs', simp(mul(zext(self.rC, 8, 64), 8, 64))), 8)
        want = regs.write(simp(mul(zext(self.rA, 8, 64), 8, 64)), 8, src)
        lim = simp(mul(zext(self.nregs, 32, 64), 8, 64))
        yield 'pointer is copied, nothing else changes', Implies(ok, self.same(Xc, 'g', want, E.obj(F, 'regs'), lim))
        yield 'registers unchanged on failure', Implies(Not(ok), self.same(Xc, 'b', regs, E.obj(F, 'regs'), lim))
        run = lambda S: ne(E.rd(S, Ptr('rvm', ro('codeRunning')), 1), 0, 8)
        yield 'a failed conversion stops execution with a message', Implies(Not(ok), And(Not(run(F)), any(e[0] == 'message' for e in F.events)))
        yield 'memory unchanged', And(F.mem['mem'] is E0.mem['mem'], F.mem['stack'] is E0.mem['stack'])


def contracts():
    out = [ExecConvertPtr()]
    for s in seqs(PUSHES):
        out.append(ExecCall(s, [], 'Void', ''))
    for r in ('Int', 'Long', 'Double'):
        out.append(ExecCall(['Push'], [], r, ''))
    for s in seqs(POPS):
        out.append(ExecCall([], s, 'Void', ''))
        out.append(ExecCall([], s, 'Void', 'wrap'))
    for r in ('Int', 'Long', 'Double'):
        for x in ('wrap', 'raw'):
            out.append(ExecCall(['Push', 'PushMem'], ['Pop'], r, x))
    for s in seqs(PUSHES)[1:]:
        out.append(ExecReturn(s, 'Int'))
    for r in ('Long', 'Double'):
        out.append(ExecReturn(['PushQword'], r))
    out.append(ExecReturn([], 'Void'))
    out.append(ExecReturn([], 'Error'))
    # in the quick tier every operation still occurs at both positions
    ring = {a: b for ops in (PUSHES, POPS) for a, b in zip(ops, ops[1:] + ops[:1])}
    for c in out:
        for s in ([c.args, c.pops] if isinstance(c, ExecCall) else [c.ops] if isinstance(c, ExecReturn) else []):
            if len(s) == 2 and ring[s[0]] != s[1] and s != ['Push', 'PushMem']:
                c.thorough_only = True
    return out


def prepare():
    K()
    interp.K()
