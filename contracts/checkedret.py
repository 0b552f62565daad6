"""Checked return: a reference or an array that designates a local of the function that returns it is replaced by a heap copy of the whole object.
ExecutorRegVm::ExecCheckedReturn and CheckedReturnWrap (native code)."""
from .common import *
from vc.engine import StopPath
from . import vmcall

_k = None


def K():
    global _k
    if _k is None:
        _k = dict(vmcall.K())
        _k.update(build.probe(['stdafx.h', 'InstructionTreeRegVm.h', 'CodeGenRegVm_X86.h', 'Linker.h'],
                              ['OFF(ExternTypeInfo,size)', 'OFF(ExternTypeInfo,arrSize)', 'OFF(ExternTypeInfo,subType)', 'OFF(ExternTypeInfo,typeFlags)', 'OFF(ExternTypeInfo,subCat)',
                               'ExternTypeInfo::TYPE_IS_EXTENDABLE', 'ExternTypeInfo::CAT_POINTER', 'ExternTypeInfo::CAT_ARRAY', 'sizeof(CodeGenRegVmContext)', 'sizeof(CodeGenRegVmStateContext)',
                               'OFF(CodeGenRegVmContext,exTypes)', 'OFF(CodeGenRegVmStateContext,ctx)', 'OFF(CodeGenRegVmStateContext,dataStackEnd)',
                               'OFF(CodeGenRegVmStateContext,tempStackArrayBase)']))
    return _k


class CheckedReturn(vmcall.VmBase):
    replayable = False

    def __init__(self, kind, where):
        self.kind, self.where = kind, where
        self.name = '%s: %s, %s' % (self.fn.split('::')[-1], kind, where)

    def stubs(self, Xc):
        def alloc(E, st, what, size, args):
            st.events = st.events + (('alloc',) + tuple(args),)
            out = []
            c = ndbool(E, st, 'allocfail')
            s2 = st.copy()
            s2.pc = s2.pc + (c,)
            s2.events = s2.events + (('error',),)
            out.append((s2, NULL))
            st.pc = st.pc + (z3.Not(c),)
            out.append((st, E.new_obj(st, 'copy', size, ('zero',))))
            return out

        def obj(E, st, a, I):
            return alloc(E, st, 'object', simp(zext(a[0], 32, 64)), ('object', a[0], a[1]))

        def arr(E, st, a, I):
            return [(s, (p, a[1] if p.base else 0)) for s, p in alloc(E, st, 'array', simp(mul(zext(a[0], 32, 64), zext(a[1], 32, 64), 64)), ('array', a[0], a[1], a[2]))]

        def collect(E, st, a, I):
            st.events = st.events + (('collect', a[0]),)

        def jump(E, st, a, I):
            st.events = st.events + (('longjmp', a[0]),)
            raise StopPath(st)
        return {'NULLC::AllocObject(int, unsigned int)': obj, 'NULLC::AllocArray(unsigned int, unsigned int, unsigned int)': arr,
                'NULLC::SetCollectMemory(bool)': collect, 'longjmp': jump}

    def common(self, Xc, R):
        k = K()
        E = Xc.E
        st = Xc.st
        self.nt = Xc.int('types', 32)
        Xc.assume(ule(self.nt, 1 << 20, 32))
        ts = k['sizeof(ExternTypeInfo)']
        Xc.obj('types', simp(mul(zext(self.nt, 32, 64), ts, 64)))
        tf = lambda i, f, n=4: E.rd(st, Ptr('types', simp(add(mul(zext(i, 32, 64), ts, 64), k['OFF(ExternTypeInfo,%s)' % f], 64))), n)
        self.tid = Xc.int('typeId', 32)
        Xc.assume(ult(self.tid, self.nt, 32))
        arr = self.kind == 'array'
        asz = tf(self.tid, 'arrSize')
        Xc.assume(eq(asz, M(32), 32) if arr else ne(asz, M(32), 32))
        Xc.assume(eq(tf(self.tid, 'subCat'), k['ExternTypeInfo::CAT_ARRAY' if arr else 'ExternTypeInfo::CAT_POINTER'], 32))
        self.sub = tf(self.tid, 'subType')
        Xc.assume(ult(self.sub, self.nt, 32))
        # the frame of the returning function lies on the stack
        self.fo = Xc.int('frame', 32)
        Xc.assume(ule(self.fo, self.ds_count, 32))
        Xc.put(Ptr('regs', k['rvrrFrame'] * 8), 8, Ptr('stack', simp(zext(self.fo, 32, 64))))
        Xc.put(Ptr('regs', k['rvrrGlobals'] * 8), 8, Ptr('stack', 0))
        # the returned value
        size = Xc.E.obj(st, 'stack').size
        Xc.obj('heap', 4096)
        ah, as_ = E.addr('heap'), E.addr('stack')
        # objects do not overlap, and a heap object is preceded by its header
        Xc.assume(And(ult(as_, 1 << 46, 64), Or(ult(add(ah, 4096, 64), as_, 64), ugt(ah, add(as_, size, 64), 64))))
        self.o = Xc.int('offset', 64)
        if self.where == 'null':
            self.ptr = NULL
        elif self.where == 'heap':
            Xc.assume(ule(self.o, 4000, 64))
            self.ptr = Ptr('heap', self.o)
        else:
            Xc.assume(ult(self.o, zext(self.ds_count, 32, 64), 64))
            fo = zext(self.fo, 32, 64)
            Xc.assume(uge(self.o, fo, 64) if self.where == 'in frame' else ult(self.o, fo, 64))
            self.ptr = Ptr('stack', self.o)
        Xc.put(Ptr('temp', 0), 8, self.ptr)
        self.len = E.rd(st, Ptr('temp', 8), 4)
        self.real = self.sub
        if self.where == 'in frame':
            avail = sub(zext(self.ds_count, 32, 64), self.o, 64)
            ext = ne(and_(tf(self.sub, 'typeFlags', 1), k['ExternTypeInfo::TYPE_IS_EXTENDABLE'], 8), 0, 8)
            if arr:
                self.esz = tf(self.sub, 'size')
                self.bytes = simp(mul(zext(self.esz, 32, 64), zext(self.len, 32, 64), 64))
            else:
                self.isext = Xc.bool('extendable')
                Xc.assume(Iff(ext, self.isext))
                Xc.assume(Implies(self.isext, uge(avail, 4, 64)))
                head = E.rd(st, self.ptr, 4)
                Xc.assume(Implies(self.isext, ult(head, self.nt, 32)))
                self.real = simp(ite(self.isext, head, self.sub, 32))
                self.esz = tf(self.real, 'size')
                self.bytes = simp(zext(self.esz, 32, 64))
            # the object lies on the stack
            Xc.assume(ule(self.bytes, avail, 64))

    def exit(self, Xc, F, ret):
        """(completed without an error, error reported)"""

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        al = [e for e in F.events if e[0] == 'alloc']
        col = [e for e in F.events if e[0] == 'collect']
        failed = any(e[0] == 'error' for e in F.events)
        good = self.completed(Xc, F, ret)
        yield 'stops with an error exactly when the copy cannot be allocated', Iff(good, not failed)
        # the collector must not run while the copy is only held by native code, and works again afterwards
        first = [i for i, e in enumerate(F.events) if e[0] == 'alloc']
        if col:
            yield 'garbage collection works again afterwards', ne(b2i(col[-1][1], 8), 0, 8)
        before = [e for e in F.events[:first[0]] if e[0] == 'collect'] if first else []
        if first:
            yield 'no garbage collection while the copy is made', And(len(before) >= 1, *[eq(b2i(before[-1][1], 8), 0, 8)] if before else [])
        for n in ('stack', 'heap', 'types'):
            yield '%s unchanged' % n, unchanged(Xc, E0, F, n)
        t0, t1 = E.obj(E0, 'temp'), E.obj(F, 'temp')
        if self.where != 'in frame':
            yield 'no copy is made of an object that outlives the function', len(al) == 0
            yield 'the returned value is unchanged', unchanged(Xc, E0, F, 'temp')
            return
        yield 'a local of the function is copied once', len(al) == 1
        if len(al) != 1:
            return
        a = al[0]
        if self.kind == 'array':
            yield 'the copy is an array of the elements', And(a[1] == 'array', eq(a[2], self.esz, 32), eq(a[3], self.len, 32), eq(a[4], self.sub, 32)) if a[1] == 'array' else False
        else:
            yield 'the copy is an object of the real type of the local', And(eq(a[2], self.esz, 32), eq(a[3], self.real, 32)) if a[1] == 'object' else False
        if failed:
            yield 'the returned value is unchanged', unchanged(Xc, E0, F, 'temp')
            return
        yield 'the copy is returned', E.icmp('eq', E.pp(E.rd(F, Ptr('temp', 0), 8)), Ptr('copy', 0), ir.PTR)
        yield 'the rest of the returned value is unchanged', unchanged(Xc, E0, F, 'temp', except_=(0, 8))
        s, c = E.obj(E0, 'stack'), E.obj(F, 'copy')
        yield 'the copy holds the whole local', forall(Xc, 'content', self.bytes, lambda i: eq(simp(s.byte(simp(add(self.o, i, 64)))), simp(c.byte(i)), 8))


class Interp(CheckedReturn):
    fn = 'ExecutorRegVm::ExecCheckedReturn'

    def setup(self, Xc):
        k = K()
        R = self.base(Xc)
        self.common(Xc, R)
        vmcall.fv(Xc, Ptr('linker', k['OFF(Linker,exTypes)']), Ptr('types', 0), self.nt, self.nt)
        return [R, self.tid, Ptr('regs', 0)]

    def completed(self, Xc, F, ret):
        return True if ret is None else ne(b2i(ret, 8), 0, 8)


class Native(CheckedReturn):
    tus = ['CodeGenRegVm_X86.cpp']
    fn = 'CheckedReturnWrap'

    def setup(self, Xc):
        k = K()
        R = self.base(Xc)
        self.common(Xc, R)
        Xc.obj('vmstate', k['sizeof(CodeGenRegVmStateContext)'])
        Xc.obj('ctx', k['sizeof(CodeGenRegVmContext)'])
        v = lambda f: Ptr('vmstate', k['OFF(CodeGenRegVmStateContext,%s)' % f])
        Xc.put(v('ctx'), 8, Ptr('ctx', 0))
        Xc.put(Ptr('ctx', k['OFF(CodeGenRegVmContext,exTypes)']), 8, Ptr('types', 0))
        Xc.put(v('dataStackEnd'), 8, Ptr('stack', simp(zext(self.ds_max, 32, 64))))
        Xc.put(v('tempStackArrayBase'), 8, Ptr('temp', 0))
        return [Ptr('vmstate', 0), Ptr('stack', simp(zext(self.fo, 32, 64))), self.tid]

    def completed(self, Xc, F, ret):
        return not any(e[0] == 'longjmp' for e in F.events)


def prepare():
    K()


def contracts():
    return [c(k, w) for c in (Interp, Native) for k in ('reference', 'array') for w in ('in frame', 'below the frame', 'heap', 'null')]
