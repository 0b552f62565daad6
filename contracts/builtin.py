"""Built-in functions of the language runtime (NULLC/StdLib.cpp): object copies, comparisons, strings, auto[] and typed references."""
from .common import *

TUS = ['StdLib.cpp']
_k = None
REF_TYPE, REF_PTR = 0, 4        # struct NULLCRef, packed
AA_TYPE, AA_PTR, AA_LEN = 0, 4, 12  # struct NULLCAutoArray, packed


def K():
    global _k
    if _k is None:
        fs = ['size', 'arrSize', 'subType', 'typeFlags', 'subCat', 'baseType', 'offsetToName', 'defaultAlign']
        _k = build.probe(['stdafx.h', 'nullc.h', 'Linker.h'],
                         ['OFF(ExternTypeInfo,%s)' % f for f in fs] + ['sizeof(ExternTypeInfo)', 'sizeof(Linker)', 'OFF(Linker,exTypes)', 'OFF(Linker,exFunctions)', 'OFF(Linker,exSymbols)',
                          'sizeof(ExternFuncInfo)', 'OFF(ExternFuncInfo,funcCat)', 'ExternFuncInfo::COROUTINE', 'ExternTypeInfo::TYPE_IS_EXTENDABLE', 'ExternTypeInfo::TYPE_HAS_FINALIZER', 'ExternTypeInfo::CAT_POINTER',
                          'ExternTypeInfo::CAT_ARRAY', 'ExternTypeInfo::CAT_FUNCTION', 'NULLC_TYPE_CHAR', 'NULLC_TYPE_AUTO_ARRAY', 'OFF(FastVector<int>,data)', 'OFF(FastVector<int>,max)',
                          'OFF(FastVector<int>,count)', 'OFF(NULLCRef,typeID)', 'OFF(NULLCRef,ptr)', 'OFF(NULLCAutoArray,typeID)', 'OFF(NULLCAutoArray,ptr)', 'OFF(NULLCAutoArray,len)',
                          'sizeof(NULLCRef)', 'sizeof(NULLCAutoArray)'])
        assert (_k['OFF(NULLCRef,typeID)'], _k['OFF(NULLCRef,ptr)'], _k['sizeof(NULLCRef)']) == (0, 4, 12)
        assert (_k['OFF(NULLCAutoArray,typeID)'], _k['OFF(NULLCAutoArray,ptr)'], _k['OFF(NULLCAutoArray,len)'], _k['sizeof(NULLCAutoArray)']) == (0, 4, 12, 16)
    return _k


def allocs(F):
    return [e for e in F.events if e[0] == 'alloc']


def alloc_obj(E, st, size, typ, tag):
    """AllocObject: a zeroed block of the requested size, or an error and null"""
    n = st.ghost.get('allocs', 0)
    st.ghost['allocs'] = n + 1
    name = 'alloc%d' % n
    c = Or(ndbool(E, st, 'allocfail'), slt(size, 0, 32))
    if isinstance(c, bool):
        if c:
            st.events = st.events + (('error',),)
            return [(st, NULL)]
        st.events = st.events + (('alloc', name, size, typ, tag),)
        return [(st, E.new_obj(st, name, zext(size, 32, 64), ('zero',)))]
    s2 = st.copy()
    s2.pc = s2.pc + (c,)
    s2.events = s2.events + (('error',),)
    st.pc = st.pc + (z3.Not(c),)
    st.events = st.events + (('alloc', name, size, typ, tag),)
    return [(s2, NULL), (st, E.new_obj(st, name, simp(zext(size, 32, 64)), ('zero',)))]


class Builtin(Contract):
    tus = TUS
    replayable = False
    # header flags: static variables nobody assigns
    use_init = tuple('_ZN5NULLCL%d%sE' % (len(n), n) for n in ('OBJECT_VISIBLE', 'OBJECT_FREED', 'OBJECT_FINALIZABLE', 'OBJECT_FINALIZED', 'OBJECT_ARRAY', 'OBJECT_MASK'))

    def stubs(self, Xc):
        k = K()

        def typ(f, conv=lambda E, x: x):
            def g(E, st, a, I):
                E.require(st, ult(a[0], self.nt, 32), 'type index', 0, '', 'call')
                return conv(E, self.tf(Xc, st, a[0], f))
            return g
        s = {
            'nullcThrowError': throw_error,
            'NULLC::AllocObject(int, unsigned int)': lambda E, st, a, I: alloc_obj(E, st, a[0], a[1], 'object'),
            # description of a type, as the type table has it
            'nullcGetTypeSize': typ('size'), 'nullcGetArraySize': typ('arrSize'), 'nullcGetSubType': typ('subType'),
            'nullcIsArray': typ('subCat', lambda E, x: b2i(eq(x, k['ExternTypeInfo::CAT_ARRAY'], 32), 32)),
            'nullcGetTypeName': lambda E, st, a, I: NULL, 'nullcGetFunctionName': lambda E, st, a, I: NULL, 'nullcGetFunctionType': lambda E, st, a, I: 0,
            'strchr': lambda E, st, a, I: NULL,
        }
        del s['NULLC::AllocObject(int, unsigned int)']
        if self.fn != 'NULLC::AllocObject':
            s['NULLC::AllocObject(int, unsigned int)'] = lambda E, st, a, I: alloc_obj(E, st, a[0], a[1], 'object')
        if self.fn != 'NULLC::AllocArray':
            def arr(E, st, a, I):
                E.require(st, eq(a[0], 1, 32), 'element size', 0, '', 'call')
                n = simp(a[1])
                return [(t, (p, n if p.base else 0)) for t, p in alloc_obj(E, st, n, a[2], 'array')]
            s['NULLC::AllocArray(unsigned int, unsigned int, unsigned int)'] = arr
        return s

    def tf(self, Xc, st, i, f):
        n = 1 if f in ('typeFlags', 'defaultAlign') else 4
        return Xc.E.rd(st, Ptr('types', simp(add(mul(zext(i, 32, 64), K()['sizeof(ExternTypeInfo)'], 64), K()['OFF(ExternTypeInfo,%s)' % f], 64))), n)

    def types(self, Xc):
        k = K()
        self.nt = Xc.int('types', 32)
        Xc.assume(And(uge(self.nt, 20, 32), ule(self.nt, 1 << 20, 32)))
        Xc.obj('types', simp(mul(zext(self.nt, 32, 64), k['sizeof(ExternTypeInfo)'], 64)))
        Xc.obj('symbols', 1 << 28)
        Xc.obj('functions', k['sizeof(ExternFuncInfo)'] * 8)
        Xc.obj('linker', k['sizeof(Linker)'])
        for f, o, n in (('exTypes', 'types', self.nt), ('exSymbols', 'symbols', 1 << 28), ('exFunctions', 'functions', 8)):
            p = Ptr('linker', k['OFF(Linker,%s)' % f])
            Xc.put(p + k['OFF(FastVector<int>,data)'], 8, Ptr(o, 0))
            Xc.put(p + k['OFF(FastVector<int>,max)'], 4, n)
            Xc.put(p + k['OFF(FastVector<int>,count)'], 4, n)
        Xc.put(Ptr('g:0:_ZN5NULLCL6linkerE', 0), 8, Ptr('linker', 0))

    def name_ok(self, Xc, t):
        """names lie inside the symbol table"""
        Xc.assume(ult(self.tf(Xc, Xc.st, t, 'offsetToName'), 1 << 28, 32))

    def typeid(self, Xc, name):
        t = Xc.int(name, 32)
        Xc.assume(ult(t, self.nt, 32))
        self.name_ok(Xc, t)
        return t

    def objsize(self, Xc, t):
        return simp(zext(self.tf(Xc, Xc.st, t, 'size'), 32, 64))

    def ref(self, Xc, name, tid, ptr):
        Xc.obj(name + '.ref', 12)
        Xc.put(Ptr(name + '.ref', REF_TYPE), 4, tid)
        Xc.put(Ptr(name + '.ref', REF_PTR), 8, ptr)
        return Ptr(name + '.ref', 0)

    def aarr(self, Xc, name, tid, ptr, ln):
        Xc.obj(name + '.arr', 16)
        Xc.put(Ptr(name + '.arr', AA_TYPE), 4, tid)
        Xc.put(Ptr(name + '.arr', AA_PTR), 8, ptr)
        Xc.put(Ptr(name + '.arr', AA_LEN), 4, ln)
        return Ptr(name + '.arr', 0)

    def rdp(self, Xc, F, p):
        return Xc.E.pp(Xc.E.rd(F, p, 8))

    def isptr(self, Xc, a, b):
        return Xc.E.icmp('eq', Xc.E.pp(a), b, ir.PTR)

    def typed(self, Xc, name, tid, null=True):
        """an object of the type, or no object"""
        if null and Xc.choice(name, ['object', 'null']) == 'null':
            return NULL
        return Xc.obj(name, self.objsize(Xc, tid))

    def elems(self, Xc, name, tid, ln, choice=True):
        """storage of `ln` elements of the type; an array with no elements may have none"""
        bytes_ = simp(mul(self.objsize(Xc, tid), zext(ln, 32, 64), 64))
        Xc.assume(ult(bytes_, 1 << 31, 64))
        if choice and Xc.choice(name, ['array', 'empty']) == 'empty':
            Xc.assume(eq(ln, 0, 32))
            return NULL, bytes_
        return Xc.obj(name, bytes_), bytes_

    def same(self, Xc, E0, F, *names):
        for n in names:
            if n in E0.mem:
                yield '%s unchanged' % n, unchanged(Xc, E0, F, n)

    def retref(self, Xc, F, tid, ptr):
        yield 'type of the returned reference', eq(Xc.E.rd(F, Ptr('ret', REF_TYPE), 4), tid, 32)
        yield 'object of the returned reference', self.isptr(Xc, self.rdp(Xc, F, Ptr('ret', REF_PTR)), ptr)


# ---------------------------------------------------------------- objects
class Duplicate(Builtin):
    fn = 'NULLC::CopyObject'
    name = 'duplicate(auto ref)'

    def setup(self, Xc):
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.o = self.typed(Xc, 'obj', self.t)
        Xc.obj('ret', 12)
        return [Ptr('ret', 0), self.ref(Xc, 'x', self.t, self.o)]

    def post(self, Xc, E0, F, ret):
        al = allocs(F)
        yield from self.same(Xc, E0, F, 'obj', 'types')
        if self.o.base is None:
            yield 'a null object is an error', And(errors(F) == 1, len(al) == 0)
            return
        if errors(F):
            yield 'fails only when the copy cannot be allocated', And(errors(F) == 1, F.ghost.get('nd', 0) == 1, len(al) == 0)
            yield 'a failed copy returns no object', self.isptr(Xc, self.rdp(Xc, F, Ptr('ret', REF_PTR)), NULL)
            return
        yield 'one object of the same type is allocated', And(len(al) == 1, *[And(eq(a[2], self.tf(Xc, E0, self.t, 'size'), 32), eq(a[3], self.t, 32)) for a in al])
        if len(al) != 1:
            return
        yield from self.retref(Xc, F, self.t, Ptr(al[0][1], 0))
        yield 'the copy holds the whole object', bytes_equal(Xc, 'c', F, Ptr(al[0][1], 0), E0, Ptr('obj', 0), self.objsize(Xc, self.t))


class TwoObjects(Builtin):
    def setup(self, Xc):
        self.types(Xc)
        self.lt, self.rt = self.typeid(Xc, 'ltype'), self.typeid(Xc, 'rtype')
        if Xc.choice('alias', ['two', 'same']) == 'same':
            Xc.assume(eq(self.lt, self.rt, 32))
            self.l = self.r = Xc.obj('left', self.objsize(Xc, self.lt))
        else:
            self.l, self.r = self.typed(Xc, 'left', self.lt), self.typed(Xc, 'right', self.rt)
        a = [self.ref(Xc, 'l', self.lt, self.l), self.ref(Xc, 'r', self.rt, self.r)]
        if self.ret:
            Xc.obj('ret', 12)
            a = [Ptr('ret', 0)] + a
        return a
    ret = False
    check_overlap = False       # an object may be given twice

    def acc(self):
        if self.l.base is None or self.r.base is None:
            return False
        return eq(self.lt, self.rt, 32)

    def post(self, Xc, E0, F, ret):
        acc = self.acc()
        n = self.objsize(Xc, self.lt)
        big = F.ghost.get('nd', 0) > 0
        yield 'error exactly for different types, a null object or a failed allocation', And(errors(F) <= 1, Implies(Not(acc), errors(F) == 1), Implies(errors(F) == 1, Or(Not(acc), big)))
        ok = errors(F) == 0
        if not ok:
            yield from self.same(Xc, E0, F, 'left', 'right')
        yield from self.same(Xc, E0, F, 'types')
        yield from self.result(Xc, E0, F, ret, ok, n)


class Replace(TwoObjects):
    fn = 'NULLC::ReplaceObject'
    name = 'replace'
    ret = True

    def result(self, Xc, E0, F, ret, ok, n):
        yield 'needs no memory', F.ghost.get('nd', 0) == 0
        yield from self.retref(Xc, F, self.lt, self.l)
        if ok:
            yield 'the left object becomes the right one', bytes_equal(Xc, 'c', F, self.l, E0, self.r, n)
            if self.l.base != self.r.base:
                yield from self.same(Xc, E0, F, 'right')


class Swap(TwoObjects):
    fn = 'NULLC::SwapObjects'
    name = 'swap'

    def result(self, Xc, E0, F, ret, ok, n):
        if ok:
            yield 'the left object becomes the right one', bytes_equal(Xc, 'c', F, self.l, E0, self.r, n)
            yield 'the right object becomes the left one', bytes_equal(Xc, 'd', F, self.r, E0, self.l, n)


class Equal(TwoObjects):
    fn = 'NULLC::CompareObjects'
    name = 'equal'

    def result(self, Xc, E0, F, ret, ok, n):
        yield from self.same(Xc, E0, F, 'left', 'right')
        yield 'needs no memory', F.ghost.get('nd', 0) == 0
        if not ok:
            yield 'a rejected comparison returns false', eq(ret, 0, 32)
            return
        yield 'result is a boolean', Or(eq(ret, 0, 32), eq(ret, 1, 32))
        yield 'equal objects hold the same bytes', Implies(ne(ret, 0, 32), bytes_equal(Xc, 'z', E0, self.l, E0, self.r, n))
        a, b = E0.mem[self.l.base], E0.mem[self.r.base]
        ms = [(o.base[1].get_id(), [0]) for o in (a, b)]
        pre = Univ(n, lambda j: eq(simp(a.byte(j)), simp(b.byte(j)), 8), ms, [])
        yield 'objects with the same bytes are equal', (ne(ret, 0, 32), [pre], ())
        if self.l.base == self.r.base:
            yield 'an object equals itself', eq(ret, 1, 32)


class Assign(Builtin):
    fn = 'NULLC::AssignObject'
    name = 'assign'

    def setup(self, Xc):
        k = K()
        self.types(Xc)
        self.lt, self.rt = self.typeid(Xc, 'ltype'), self.typeid(Xc, 'rtype')
        # a pointer variable is 8 bytes
        self.isp = eq(self.tf(Xc, Xc.st, self.lt, 'subCat'), k['ExternTypeInfo::CAT_POINTER'], 32)
        Xc.assume(Implies(self.isp, eq(self.tf(Xc, Xc.st, self.lt, 'size'), 8, 32)))
        self.l = self.typed(Xc, 'left', self.lt)
        self.r = Xc.obj('right', 16) if Xc.choice('right', ['object', 'null']) == 'object' else NULL
        return [self.ref(Xc, 'l', self.lt, self.l), self.ref(Xc, 'r', self.rt, self.r)]

    def post(self, Xc, E0, F, ret):
        acc = And(self.isp, eq(self.tf(Xc, E0, self.lt, 'subType'), self.rt, 32), self.l.base is not None)
        yield 'error exactly when the left side is not a variable holding references to the type of the right side', And(Iff(acc, errors(F) == 0), errors(F) <= 1)
        if errors(F) or self.l.base is None:
            yield from self.same(Xc, E0, F, 'left')
        else:
            yield 'the variable refers to the right object', self.isptr(Xc, self.rdp(Xc, F, self.l), self.r)
        yield from self.same(Xc, E0, F, 'right', 'types')


class DuplicateArray(Builtin):
    fn = 'NULLC::CopyArray'
    name = 'duplicate(auto[])'

    def setup(self, Xc):
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.n = Xc.int('length', 32)
        self.s, self.b = self.elems(Xc, 'src', self.t, self.n)
        self.d = NULL if Xc.choice('dst', ['array', 'null']) == 'null' else Xc.obj('dst', 16)
        return [self.d, self.aarr(Xc, 's', self.t, self.s, self.n)]

    def post(self, Xc, E0, F, ret):
        al = allocs(F)
        yield from self.same(Xc, E0, F, 'src', 'types')
        if self.d.base is None:
            yield 'a null destination is an error', And(errors(F) == 1, len(al) == 0)
            return
        if errors(F):
            yield 'fails only when the copy cannot be allocated', And(errors(F) == 1, F.ghost.get('nd', 0) == 1)
            yield from self.same(Xc, E0, F, 'dst')
            return
        yield 'one block for all elements is allocated', And(len(al) == 1, *[And(eq(zext(a[2], 32, 64), self.b, 64), eq(a[3], self.t, 32)) for a in al])
        if len(al) != 1:
            return
        E = Xc.E
        yield 'element type and length are those of the source', And(eq(E.rd(F, self.d, 4), self.t, 32), eq(E.rd(F, self.d + AA_LEN, 4), self.n, 32))
        yield 'the result is the new block', self.isptr(Xc, self.rdp(Xc, F, self.d + AA_PTR), Ptr(al[0][1], 0))
        if self.s.base:
            yield 'the copy holds all elements', bytes_equal(Xc, 'c', F, Ptr(al[0][1], 0), E0, self.s, self.b)


class ArrayCopy(Builtin):
    fn = 'NULLC::ArrayCopy'
    name = 'array_copy'

    def setup(self, Xc):
        self.types(Xc)
        self.dt, self.stt = self.typeid(Xc, 'dtype'), self.typeid(Xc, 'stype')
        self.dn, self.sn = Xc.int('dlen', 32), Xc.int('slen', 32)
        self.s, self.sb = self.elems(Xc, 'src', self.stt, self.sn)
        if Xc.choice('alias', ['two', 'same']) == 'same':
            self.d = self.s
        else:
            self.d, self.db = self.elems(Xc, 'dst', self.dt, self.dn)
            # lemma: the product of 32 bit numbers, in 64 bits, is monotone
            Xc.assume(Implies(And(eq(self.dt, self.stt, 32), uge(self.dn, self.sn, 32)), uge(self.db, self.sb, 64)))
        return [self.aarr(Xc, 'd', self.dt, self.d, self.dn), self.aarr(Xc, 's', self.stt, self.s, self.sn)]

    def post(self, Xc, E0, F, ret):
        same = self.d == self.s
        acc = Or(same, And(eq(self.dt, self.stt, 32), uge(self.dn, self.sn, 32)))
        yield 'error exactly for different element types or a destination that is too small', And(Iff(acc, errors(F) == 0), errors(F) <= 1)
        yield from self.same(Xc, E0, F, 'src', 'types')
        if same or self.d.base is None:
            return
        if errors(F):
            yield from self.same(Xc, E0, F, 'dst')
            return
        if self.s.base:
            yield 'the elements are copied', bytes_equal(Xc, 'c', F, self.d, E0, self.s, self.sb)
        yield 'elements past the end of the source are unchanged', unchanged(Xc, E0, F, 'dst', except_=(0, self.sb))


# ---------------------------------------------------------------- strings
class Str(Builtin):
    def strings(self, Xc):
        if Xc.choice('storage', ['own', 'shared']) == 'shared':
            # two strings, possibly of different length, that share their characters
            self.al, self.bl = Xc.int('a.len', 32), Xc.int('b.len', 32)
            self.a = self.b = Xc.obj('a', zext(ite(ult(self.al, self.bl, 32), self.bl, self.al, 32), 32, 64))
        else:
            self.a, self.al = script_array(Xc, 'a')
            self.b, self.bl = script_array(Xc, 'b')
        # no object of the program is larger than 2 GB
        Xc.assume(And(ult(self.al, 1 << 31, 32), ult(self.bl, 1 << 31, 32)))

    def setup(self, Xc):
        self.strings(Xc)
        return [self.a, self.al, self.b, self.bl]


class StrEqual(Str):
    fn = 'NULLC::StrEqual'
    name = 'string =='
    replayable = True
    val = 1

    def post(self, Xc, E0, F, ret):
        yield 'no error', errors(F) == 0
        yield 'result is a boolean', Or(eq(ret, 0, 32), eq(ret, 1, 32))
        n = zext(self.al, 32, 64)
        yield 'strings of different length differ', Implies(ne(self.al, self.bl, 32), eq(ret, 1 - self.val, 32))
        yield from self.same(Xc, E0, F, 'a', 'b')
        if self.a.base is None or self.b.base is None:
            yield 'empty strings are equal', Implies(eq(self.al, self.bl, 32), eq(ret, self.val, 32))
            return
        yield 'equal strings hold the same characters', Implies(eq(ret, self.val, 32), bytes_equal(Xc, 'z', E0, self.a, E0, self.b, n))
        a, b = E0.mem[self.a.base], E0.mem[self.b.base]
        if Xc.concrete:
            yield 'strings with the same characters are equal', (ret == self.val) == (self.al == self.bl and all(eq(a.byte(i), b.byte(i), 8) for i in range(self.al)))
            return
        ms = [(o.base[1].get_id(), [0]) for o in (a, b)]
        pre = Univ(n, lambda j: eq(simp(a.byte(j)), simp(b.byte(j)), 8), ms, [])
        yield 'strings with the same characters are equal', (Implies(eq(self.al, self.bl, 32), eq(ret, self.val, 32)), [pre], ())


class StrNEqual(StrEqual):
    fn = 'NULLC::StrNEqual'
    name = 'string !='
    val = 0


class Concat(Str):
    fn = 'NULLC::StrConcatenate'
    name = 'string +'

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        rp, rl = ret
        rp = E.pp(rp)
        yield from self.check(Xc, E0, F, rp, rl)

    def check(self, Xc, E0, F, rp, rl):
        E = Xc.E
        al = allocs(F)
        yield from self.same(Xc, E0, F, 'a', 'b')
        if errors(F):
            yield 'fails only when the result cannot be allocated', And(errors(F) == 1, F.ghost.get('nd', 0) == 1)
            yield 'a failed concatenation returns the empty string', And(self.isptr(Xc, rp, NULL), eq(rl, 0, 32))
            return
        sh = 0
        if self.a.base:
            last = E.rd(E0, Ptr('a', simp(sub(zext(self.al, 32, 64), 1, 64))), 1)
            sh = b2i(And(ne(self.al, 0, 32), eq(last, 0, 8)), 32)
        first = simp(sub(self.al, sh, 32))
        n = simp(add(first, self.bl, 32))
        yield 'the result has the characters of both strings, without the terminator of the first', eq(rl, n, 32)
        yield 'one block is allocated', And(len(al) == 1, *[And(eq(x[2], n, 32), eq(x[3], K()['NULLC_TYPE_CHAR'], 32)) for x in al])
        if len(al) != 1:
            return
        r = Ptr(al[0][1], 0)
        yield 'the result is the new block', self.isptr(Xc, rp, r)
        f64 = zext(first, 32, 64)
        if self.a.base:
            yield 'the result starts with the first string', bytes_equal(Xc, 'x', F, r, E0, self.a, f64)
        if self.b.base:
            yield 'the second string follows', bytes_equal(Xc, 'y', F, r + f64, E0, self.b, zext(self.bl, 32, 64))


class ConcatSet(Concat):
    fn = 'NULLC::StrConcatenateAndSet'
    name = 'string +='

    def setup(self, Xc):
        self.strings(Xc)
        Xc.obj('dst', 12)
        Xc.put(Ptr('dst', 0), 8, self.a)
        Xc.put(Ptr('dst', 8), 4, self.al)
        self.np = Xc.choice('target', ['string', 'null'])
        return [Ptr('dst', 0) if self.np == 'string' else NULL, self.b, self.bl]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        rp, rl = ret
        if self.np == 'null':
            yield 'a null target is an error', errors(F) == 1
            return
        yield 'the target is set to the result', And(self.isptr(Xc, self.rdp(Xc, F, Ptr('dst', 0)), E.pp(rp)), eq(E.rd(F, Ptr('dst', 8), 4), rl, 32))
        yield from self.check(Xc, E0, F, E.pp(rp), rl)


class Str2(Builtin):
    """number to text: exactly the decimal digits"""
    unroll = 24
    feas_timeout = 300

    def __init__(self, fn, name, w):
        self.fn, self.name, self.w = 'NULLC::' + fn, name, w

    def setup(self, Xc):
        if Xc.choice('value', ['value', 'null']) == 'null':
            return [NULL]
        self.v = Xc.int('number', self.w)
        if self.w > 16:
            Xc.E.div_facts = {}
        Xc.obj('value', self.w // 8)
        Xc.put(Ptr('value', 0), self.w // 8, self.v)
        return [Ptr('value', 0)]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        rp, rl = ret
        rp = E.pp(rp)
        al = allocs(F)
        if errors(F):
            yield 'fails only for a null value or a failed allocation', And(errors(F) == 1, Or('value' not in E0.mem, F.ghost.get('nd', 0) == 1))
            yield 'a failed conversion returns the empty string', And(self.isptr(Xc, rp, NULL), eq(rl, 0, 32))
            return
        yield 'a null value is an error', 'value' in E0.mem
        yield from self.same(Xc, E0, F, 'value')
        yield 'one string is allocated', And(len(al) == 1, *[And(eq(x[2], rl, 32), eq(x[3], K()['NULLC_TYPE_CHAR'], 32)) for x in al])
        if len(al) != 1 or not isc(rl):
            yield 'length is determined', isc(rl)
            return
        yield 'the result is the new string', self.isptr(Xc, rp, Ptr(al[0][1], 0))
        ch = [E.rd(F, Ptr(al[0][1], i), 1) for i in range(rl)]
        v = sext(self.v, self.w, 72)
        yield 'terminated', eq(ch[-1], 0, 8)
        neg = isc(ch[0]) and ch[0] == ord('-')
        ds = ch[1:-1] if neg else ch[:-1]
        yield 'sign', Iff(slt(v, 0, 72), neg)
        n = len(ds)
        if not n:
            yield 'at least one digit', False
            return
        # q[i] = number / 10^i, r[i] = its last digit
        w = self.w
        q, r = [self.v], []
        for i in range(n):
            d = sdivrem(q[i], w) if E.div_facts is None or isc(q[i]) else E.divrem(F, q[i], 10, w)
            r.append(d[1])
            q.append(d[0])
        mag = lambda x: ite(slt(x, 0, w), sub(0, x, w), x, w)
        yield 'characters are the digits, last one first', And(*[eq(ds[n - 1 - i], trunc(simp(add(mag(r[i]), 48, w)), w, 8), 8) for i in range(n)])
        yield 'every digit is written, without leading zeros', And(eq(q[n], 0, w), n == 1 or ne(q[n - 1], 0, w))
        # lemma: x = 10 * (x / 10) + x % 10, the remainder is a digit with the sign of x
        x = Xc.E.fresh('lemma', w)
        a, c = sdivrem(x, w)
        W = w + 8
        S = lambda y: sext(y, w, W)
        if E.div_facts is None:
            yield 'lemma: division by ten', And(eq(S(x), add(mul(S(a), 10, W), S(c), W), W), slt(c, 10, w), sgt(c, M(w) - 9, w), Or(eq(c, 0, w), Iff(slt(x, 0, w), slt(c, 0, w))))
        # lemma: the digits of a number without a further quotient have the value of the number
        qs = [Xc.E.fresh('q%d' % i, W) for i in range(n)] + [0]
        rs = [Xc.E.fresh('r%d' % i, W) for i in range(n)]
        tot = 0
        for c in reversed(rs):
            tot = add(mul(tot, 10, W), c, W)
        yield 'lemma: value of the digits', Implies(And(*[eq(qs[i], add(mul(qs[i + 1], 10, W), rs[i], W), W) for i in range(n)]), eq(tot, qs[0], W))


def sdivrem(x, w):
    if isc(x):
        v = sg(x, w)
        q = abs(v) // 10 * (1 if v >= 0 else -1)
        return q & M(w), (v - 10 * q) & M(w)
    return x / bv(10, w), z3.SRem(x, bv(10, w))


# ---------------------------------------------------------------- methods on auto ref
class Redirect(Builtin):
    ptr = False
    fn = 'NULLC::FunctionRedirect'
    name = 'method of an auto ref'

    def setup(self, Xc):
        self.t = Xc.int('type', 32)
        self.n = Xc.int('table', 32)
        self.p = Xc.obj('obj', 16)
        a = self.ref(Xc, 'r', self.t, self.p)
        self.k = Xc.choice('table', ['table', 'null'])
        if self.k == 'null':
            return [a, NULL]
        Xc.assume(ule(self.n, 1 << 20, 32))
        Xc.obj('funcs', simp(mul(zext(self.n, 32, 64), 4, 64)))
        Xc.obj('arr', 12)
        Xc.put(Ptr('arr', 0), 8, Ptr('funcs', 0))
        Xc.put(Ptr('arr', 8), 4, self.n)
        return [a, Ptr('arr', 0)]

    def post(self, Xc, E0, F, ret):
        rp, rid = ret
        rp = Xc.E.pp(rp)
        if self.k == 'null':
            yield 'a null table is an error', errors(F) == 1
            return
        inr = ult(self.t, self.n, 32)
        fid = Xc.E.rd(E0, Ptr('funcs', simp(mul(zext(self.t, 32, 64), 4, 64))), 4)
        yield 'at most one error', errors(F) <= 1
        if self.ptr:
            yield 'error exactly for a type outside of the table', Iff(inr, errors(F) == 0)
        else:
            yield 'error exactly when the type has no implementation', Iff(And(inr, ne(fid, 0, 32)), errors(F) == 0)
        if errors(F):
            yield 'an error returns the null function', And(eq(rid, 0, 32), self.isptr(Xc, rp, NULL))
            return
        yield 'implementation for the type of the object', eq(rid, fid, 32)
        if not self.ptr:
            yield 'the object is the context', self.isptr(Xc, rp, self.p)
        else:
            yield 'the object is the context of an implemented method', And(Implies(ne(fid, 0, 32), self.isptr(Xc, rp, self.p)), Implies(eq(fid, 0, 32), self.isptr(Xc, rp, NULL)))
        yield from self.same(Xc, E0, F, 'funcs', 'arr', 'obj')


class RedirectPtr(Redirect):
    ptr = True
    fn = 'NULLC::FunctionRedirectPtr'
    name = 'method pointer of an auto ref'


# ---------------------------------------------------------------- types
class TypeId(Builtin):
    fn = 'NULLC::Typeid'
    name = 'typeid(auto ref)'

    def setup(self, Xc):
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.ext = ne(and_(self.tf(Xc, Xc.st, self.t, 'typeFlags'), K()['ExternTypeInfo::TYPE_IS_EXTENDABLE'], 8), 0, 8)
        Xc.obj('obj', 16)
        return [self.ref(Xc, 'r', self.t, Ptr('obj', 0))]

    def post(self, Xc, E0, F, ret):
        yield 'type of the object: of an extendable class the one the object was created with', eq(ret, ite(self.ext, Xc.E.rd(E0, Ptr('obj', 0), 4), self.t, 32), 32)
        yield 'no error', errors(F) == 0


class TypeSize(Builtin):
    fn = 'NULLC::TypeSize'
    name = 'typeid.size'

    def setup(self, Xc):
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        if Xc.choice('t', ['type', 'null']) == 'null':
            return [NULL]
        Xc.obj('t', 4)
        Xc.put(Ptr('t', 0), 4, self.t)
        return [Ptr('t', 0)]

    def post(self, Xc, E0, F, ret):
        yield 'error exactly for null', Iff('t' not in E0.mem, errors(F) == 1)
        yield 'size of the type', eq(ret, self.tf(Xc, E0, self.t, 'size') if 't' in E0.mem else 0, 32)


class Simple(Builtin):
    """comparisons and conversions of values"""
    replayable = False

    def __init__(self, fn, kind, op):
        self.fn = 'NULLC::' + fn
        self.kind, self.op = kind, op
        self.name = fn

    def setup(self, Xc):
        kd = self.kind
        if kd[0] in 'iu':
            self.w = int(kd[1:])
            self.v = Xc.int('v', self.w)
            return [self.v]
        if kd == 'types':
            self.x, self.y = Xc.int('x', 32), Xc.int('y', 32)
            return [self.x, self.y]
        Xc.obj('mem', 4096)
        self.x, self.y = Xc.int('x', 64), Xc.int('y', 64)
        Xc.assume(And(ult(self.x, 4096, 64), ult(self.y, 4096, 64)))
        pa, pb = Ptr('mem', self.x), Ptr('mem', self.y)
        self.s, self.t = Xc.int('s', 32), Xc.int('t', 32)
        if kd == 'ref':
            return [self.ref(Xc, 'l', self.s, pa), self.ref(Xc, 'r', self.t, pb)]
        if kd == 'func':
            return [pa, self.s, pb, self.t]
        if kd == 'arr':
            return [self.aarr(Xc, 'l', 1, pa, self.s), self.aarr(Xc, 'r', 1, pb, self.t)]

    def post(self, Xc, E0, F, ret):
        kd = self.kind
        yield 'no error', errors(F) == 0
        if kd[0] in 'iu':
            rw = self.op
            yield 'value is preserved', eq(ret, (sext if kd[0] == 'i' else zext)(self.v, self.w, rw) if rw != self.w else self.v, rw)
            return
        if kd == 'types':
            c = eq(self.x, self.y, 32) if self.op == 'eq' else ne(self.x, self.y, 32)
        elif kd == 'ref':
            c = {'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'ugt': ugt, 'uge': uge}[self.op](self.x, self.y, 64)
        else:
            c = And(eq(self.x, self.y, 64), eq(self.s, self.t, 32))
            if self.op == 'ne':
                c = Not(c)
        yield 'result of the comparison', eq(ret, b2i(c, 32), 32)


# ---------------------------------------------------------------- auto[]
class AAssign(Builtin):
    fn = 'NULLC::AutoArrayAssign'
    name = 'auto[] = array'

    def setup(self, Xc):
        k = K()
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.isarr = eq(self.tf(Xc, Xc.st, self.t, 'subCat'), k['ExternTypeInfo::CAT_ARRAY'], 32)
        self.asz = self.tf(Xc, Xc.st, self.t, 'arrSize')
        self.k = Xc.choice('right', ['auto[]', 'array[]', 'array[N]', 'other', 'null'])
        at = eq(self.t, k['NULLC_TYPE_AUTO_ARRAY'], 32)
        # auto[] is not an array type of the program
        Xc.assume(Implies(at, Not(self.isarr)))
        self.p, self.n = Xc.int('ptr', 64), Xc.int('len', 32)
        Xc.obj('data', 64)
        Xc.assume(ult(self.p, 64, 64))
        if self.k == 'auto[]':
            Xc.assume(at)
            self.et = Xc.int('elem', 32)
            self.r = self.aarr(Xc, 'r', self.et, Ptr('data', self.p), self.n)
        elif self.k == 'array[]':
            Xc.assume(And(self.isarr, eq(self.asz, M(32), 32)))
            self.et = self.tf(Xc, Xc.st, self.t, 'subType')
            Xc.obj('right', 12)
            Xc.put(Ptr('right', 0), 8, Ptr('data', self.p))
            Xc.put(Ptr('right', 8), 4, self.n)
            self.r = Ptr('right', 0)
        elif self.k == 'array[N]':
            Xc.assume(And(self.isarr, ne(self.asz, M(32), 32)))
            self.et = self.tf(Xc, Xc.st, self.t, 'subType')
            self.r = Xc.obj('right', 16)
        elif self.k == 'other':
            Xc.assume(And(Not(self.isarr), Not(at)))
            self.r = Xc.obj('right', 16)
        else:
            self.r = NULL
        self.l = NULL if Xc.choice('left', ['left', 'null']) == 'null' else Xc.obj('left', 16)
        return [self.l, self.ref(Xc, 'x', self.t, self.r)]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        acc = self.l.base is not None and self.k not in ('other', 'null')
        yield 'error exactly when one side is null or the value is not an array', errors(F) == (0 if acc else 1)
        yield from self.same(Xc, E0, F, 'right', 'r.arr', 'data', 'types')
        if errors(F):
            yield from self.same(Xc, E0, F, 'left')
            return
        if not acc:
            return
        yield 'returns the left side', self.isptr(Xc, ret, self.l)
        yield 'element type', eq(E.rd(F, self.l, 4), self.et, 32)
        if self.k == 'array[N]':
            yield 'length is the one of the array type', eq(E.rd(F, self.l + AA_LEN, 4), self.asz, 32)
            yield 'refers to the array', self.isptr(Xc, self.rdp(Xc, F, self.l + AA_PTR), self.r)
        else:
            yield 'length of the array', eq(E.rd(F, self.l + AA_LEN, 4), self.n, 32)
            yield 'refers to the elements', self.isptr(Xc, self.rdp(Xc, F, self.l + AA_PTR), Ptr('data', self.p))


class AAssignRev(Builtin):
    fn = 'NULLC::AutoArrayAssignRev'
    name = 'array = auto[]'

    def setup(self, Xc):
        k = K()
        self.types(Xc)
        self.t, self.et = self.typeid(Xc, 'type'), self.typeid(Xc, 'elem')
        self.isarr = eq(self.tf(Xc, Xc.st, self.t, 'subCat'), k['ExternTypeInfo::CAT_ARRAY'], 32)
        self.asz = self.tf(Xc, Xc.st, self.t, 'arrSize')
        self.subt = self.tf(Xc, Xc.st, self.t, 'subType')
        at = eq(self.t, k['NULLC_TYPE_AUTO_ARRAY'], 32)
        Xc.assume(Implies(at, Not(self.isarr)))
        self.n = Xc.int('len', 32)
        self.d, self.b = self.elems(Xc, 'data', self.et, self.n)
        self.k = Xc.choice('left', ['auto[]', 'array[]', 'array[N]', 'other', 'null'])
        if self.k == 'auto[]':
            Xc.assume(at)
            self.l = Xc.obj('left', 16)
        elif self.k == 'array[]':
            Xc.assume(And(self.isarr, eq(self.asz, M(32), 32)))
            self.l = Xc.obj('left', 12)
        elif self.k == 'array[N]':
            Xc.assume(And(self.isarr, ne(self.asz, M(32), 32), ult(self.subt, self.nt, 32)))
            self.lb = simp(mul(zext(self.asz, 32, 64), self.objsize(Xc, self.subt), 64))
            Xc.assume(ult(self.lb, 1 << 31, 64))
            self.l = Xc.obj('left', self.lb)
        elif self.k == 'other':
            Xc.assume(And(Not(self.isarr), Not(at)))
            self.l = Xc.obj('left', 16)
        else:
            self.l = NULL
        Xc.obj('ret', 12)
        self.r = NULL if Xc.choice('right', ['right', 'null']) == 'null' else self.aarr(Xc, 'r', self.et, self.d, self.n)
        return [Ptr('ret', 0), self.ref(Xc, 'x', self.t, self.l), self.r]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        acc = self.l.base is not None and self.r.base is not None and self.k != 'other'
        if acc and self.k != 'auto[]':
            acc = eq(self.subt, self.et, 32)
            if self.k == 'array[N]':
                acc = And(acc, eq(self.asz, self.n, 32))
        yield 'error exactly when one side is null, the target is not an array, or element type or length do not match', And(Iff(acc, errors(F) == 0), errors(F) <= 1)
        yield from self.same(Xc, E0, F, 'data', 'r.arr', 'types')
        if errors(F):
            yield from self.same(Xc, E0, F, 'left')
            return
        if acc is False:
            return
        if self.k == 'auto[]':
            yield 'the target becomes the same array', bytes_equal(Xc, 'c', F, self.l, E0, self.r, 16)
            return
        yield from self.retref(Xc, F, self.t, self.l)
        if self.k == 'array[]':
            yield 'length of the array', eq(E.rd(F, self.l + 8, 4), self.n, 32)
            yield 'refers to the elements', self.isptr(Xc, self.rdp(Xc, F, self.l), self.d)
        elif self.d.base:
            yield 'the elements are copied', bytes_equal(Xc, 'c', F, self.l, E0, self.d, self.b)


class AIndex(Builtin):
    fn = 'NULLC::AutoArrayIndex'
    name = 'auto[] index'

    def setup(self, Xc):
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.n, self.i = Xc.int('len', 32), Xc.int('index', 32)
        self.d, self.b = self.elems(Xc, 'data', self.t, self.n)
        Xc.obj('ret', 12)
        self.l = NULL if Xc.choice('left', ['left', 'null']) == 'null' else self.aarr(Xc, 'l', self.t, self.d, self.n)
        return [Ptr('ret', 0), self.l, self.i]

    def post(self, Xc, E0, F, ret):
        acc = And(self.l.base is not None, ult(self.i, self.n, 32))
        yield 'error exactly for a null array or an index outside of it', And(Iff(acc, errors(F) == 0), errors(F) <= 1)
        yield from self.same(Xc, E0, F, 'data', 'l.arr', 'types')
        if errors(F):
            yield 'an error returns null', self.isptr(Xc, self.rdp(Xc, F, Ptr('ret', REF_PTR)), NULL)
        elif self.d.base and self.l.base:
            yield 'type of the element', eq(Xc.E.rd(F, Ptr('ret', 0), 4), self.t, 32)
            p = self.rdp(Xc, F, Ptr('ret', REF_PTR))
            yield 'refers to the element', self.isptr(Xc, p, Ptr('data', simp(mul(zext(self.i, 32, 64), self.objsize(Xc, self.t), 64))))


class ANew(Builtin):
    fn = 'NULLC::AutoArray'
    name = 'auto_array'

    def setup(self, Xc):
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.n = Xc.int('count', 32)
        self.lim = Xc.int('limit', 32)
        Xc.assume(ult(self.lim, 1 << 31, 32))
        Xc.put(Ptr('g::_ZN5NULLC17globalMemoryLimitE', 0), 4, self.lim)
        self.l = NULL if Xc.choice('arr', ['arr', 'null']) == 'null' else Xc.obj('arr', 16)
        return [self.l, self.t, self.n]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        al = allocs(F)
        b = simp(mul(zext(self.n, 32, 64), self.objsize(Xc, self.t), 64))
        fits = ule(b, zext(self.lim, 32, 64), 64)
        yield from self.same(Xc, E0, F, 'types')
        yield 'at most one error', errors(F) <= 1
        if self.l.base is None:
            yield 'a null array is an error', And(errors(F) == 1, len(al) == 0)
            return
        if errors(F):
            yield 'fails only when the elements do not fit into memory', Or(Not(fits), F.ghost.get('nd', 0) == 1)
            yield from self.same(Xc, E0, F, 'arr')
            return
        yield 'fits into memory', fits
        yield 'one block for all elements', And(len(al) == 1, *[And(eq(zext(a[2], 32, 64), b, 64), eq(a[3], self.t, 32)) for a in al])
        if len(al) != 1:
            return
        yield 'element type and length', And(eq(E.rd(F, self.l, 4), self.t, 32), eq(E.rd(F, self.l + AA_LEN, 4), self.n, 32))
        yield 'the new block', self.isptr(Xc, self.rdp(Xc, F, self.l + AA_PTR), Ptr(al[0][1], 0))


def um(a, b, w):
    return UF('umul%d' % w, [w, w], w)(bv(a, w), bv(b, w))


class ASet(Builtin):
    fn = 'NULLC::AutoArraySet'
    name = 'auto[].set'

    def prod(self, x):
        return um(zext(x, 32, 64), self.es, 64)

    def setup(self, Xc):
        self.types(Xc)
        self.t, self.xt = self.typeid(Xc, 'type'), self.typeid(Xc, 'xtype')
        self.n, self.i = Xc.int('len', 32), Xc.int('pos', 32)
        self.lim = Xc.int('limit', 32)
        Xc.assume(ult(self.lim, 1 << 31, 32))
        Xc.put(Ptr('g::_ZN5NULLC17globalMemoryLimitE', 0), 4, self.lim)
        # products are an uninterpreted function with the lemmas the argument needs: commutative, the low half of the 64 bit
        # product of 32 bit numbers is their 32 bit product, monotone
        Xc.E.mul_uf = True
        self.es = self.objsize(Xc, self.t)
        e = trunc(self.es, 64, 32)
        xs = [self.n, self.i, simp(add(add(self.n, 1, 32), lshr(self.n, 1, 32), 32)), simp(add(self.i, 1, 32))]
        for x in xs:
            Xc.assume(And(eq(um(self.es, zext(x, 32, 64), 64), self.prod(x), 64), eq(um(x, e, 32), trunc(self.prod(x), 64, 32), 32), eq(um(e, x, 32), trunc(self.prod(x), 64, 32), 32),
                          ult(self.prod(x), M(64) - (1 << 32), 64), Implies(Or(eq(e, 0, 32), eq(x, 0, 32)), eq(self.prod(x), 0, 64))))
            for y in xs:
                if x is not y:
                    Xc.assume(And(Implies(ult(x, y, 32), ule(add(self.prod(x), self.es, 64), self.prod(y), 64)), Implies(eq(x, y, 32), eq(self.prod(x), self.prod(y), 64))))
        # values of a class without members need no memory: at most 2^31 elements
        Xc.assume(ult(self.n, 1 << 31, 32))
        self.b = self.prod(self.n)
        Xc.assume(ult(self.b, 1 << 31, 64))
        if Xc.choice('data', ['array', 'empty']) == 'empty':
            Xc.assume(eq(self.n, 0, 32))
            self.d = NULL
        else:
            self.d = Xc.obj('data', self.b)
        self.x = self.typed(Xc, 'x', self.xt)
        self.l = NULL if Xc.choice('left', ['left', 'null']) == 'null' else self.aarr(Xc, 'l', self.t, self.d, self.n)
        return [self.ref(Xc, 'v', self.xt, self.x), self.i, self.l]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        al = allocs(F)
        acc = And(self.l.base is not None, self.x.base is not None, eq(self.t, self.xt, 32))
        grow = uge(self.i, self.n, 32)
        if self.l.base is None or self.x.base is None:
            yield 'null is an error', errors(F) == 1
            yield from self.same(Xc, E0, F, 'data', 'l.arr')
            return
        yield 'error only for a different element type or an array that does not fit into memory', And(errors(F) <= 1, Implies(Not(acc), errors(F) == 1), Implies(errors(F) == 1, Or(Not(acc), grow)))
        yield from self.same(Xc, E0, F, 'x', 'types')
        if errors(F):
            yield from self.same(Xc, E0, F, 'data', 'l.arr')
            return
        L = Ptr('l.arr', 0)
        yield 'element type stays', eq(E.rd(F, L, 4), self.t, 32)
        at = self.prod(self.i)
        if not al:
            yield 'an element inside of the array needs no memory', Not(grow)
            yield 'the array stays where it is', unchanged(Xc, E0, F, 'l.arr')
            if self.d.base:
                yield 'the element is set', bytes_equal(Xc, 'c', F, self.d + at, E0, self.x, self.es)
                yield 'the other elements stay', unchanged(Xc, E0, F, 'data', except_=(at, self.es))
            return
        yield 'only a position past the end extends the array', grow
        yield 'one new block', len(al) == 1
        if len(al) != 1:
            return
        nl = E.rd(F, L + AA_LEN, 4)
        yield 'the array reaches to the element', ult(self.i, nl, 32)
        yield 'the block holds all elements', And(eq(zext(al[0][2], 32, 64), self.prod(nl), 64), eq(al[0][3], self.t, 32))
        p = self.rdp(Xc, F, L + AA_PTR)
        N = Ptr(al[0][1], 0)
        yield 'the array uses the new block', self.isptr(Xc, p, N)
        yield 'the element is set', bytes_equal(Xc, 'c', F, N + at, E0, self.x, self.es)
        if self.d.base:
            yield 'the old elements are kept', bytes_equal(Xc, 'd', F, N, E0, self.d, self.b)
        yield from self.same(Xc, E0, F, 'data')


class AShrink(Builtin):
    fn = 'NULLC::ShrinkAutoArray'
    name = '__force_size'

    def setup(self, Xc):
        self.n, self.s = Xc.int('len', 32), Xc.int('size', 32)
        self.l = NULL if Xc.choice('left', ['left', 'null']) == 'null' else self.aarr(Xc, 'l', 7, NULL, self.n)
        return [self.l, self.s]

    def post(self, Xc, E0, F, ret):
        acc = And(self.l.base is not None, ule(self.s, self.n, 32))
        yield 'error exactly for null or a larger size', And(Iff(acc, errors(F) == 0), errors(F) <= 1)
        if self.l.base:
            yield 'new length', eq(Xc.E.rd(F, self.l + AA_LEN, 4), ite(acc, self.s, self.n, 32), 32)
            yield 'type and elements stay', unchanged(Xc, E0, F, 'l.arr', except_=(AA_LEN, 4))


# ---------------------------------------------------------------- allocation
G_USED, G_LIMIT, G_COLLECT = 'g::_ZN5NULLC10usedMemoryE', 'g::_ZN5NULLC17globalMemoryLimitE', 'g::_ZN5NULLC18collectableMinimumE'
MARK = 8
ARRAY, FINALIZABLE = 1 << 4, 1 << 2     # header flags, as the collector reads them


class NewObject(Builtin):
    """the block allocators below are assumed: a block of a pool, or of the system, is memory nobody else uses"""
    fn = 'NULLC::AllocObject'
    name = 'object allocation'
    check_overlap = False

    def stubs(self, Xc):
        s = super().stubs(Xc)

        def block(E, st, n):
            self.cnt = getattr(self, 'cnt', 0)
            return E.new_obj(st, 'block', n)
        for n in (8, 16, 32, 64, 128, 256, 512):
            def pool(E, st, a, I, n=n):
                st.events = st.events + (('block', n),)
                return block(E, st, n)
            s['ObjectBlockPool<%d, %d>::Alloc()' % (n, 65536 // n)] = pool

        def system(E, st, a, I):
            n = simp(add(sext(a[0], 32, 64), sext(a[1], 32, 64), 64))
            E.require(st, And(sge(a[0], 0, 32), ult(n, 1 << 31, 64)), 'requested size', 0, '', 'call')
            c = ndbool(E, st, 'allocfail')
            s2 = st.copy()
            s2.pc = s2.pc + (c,)
            st.pc = st.pc + (z3.Not(c),)
            st.events = st.events + (('block', n),)
            return [(s2, NULL), (st, block(E, st, n))]
        s['NULLC::alignedAlloc(int, int)'] = system

        def collect(E, st, a, I):
            # frees unreachable objects: the used memory does not grow
            st.events = st.events + (('collect',),)
            n = E.fresh('used', 32)
            st.pc = st.pc + (z3.ULE(n, bv(E.rd(st, Ptr(G_USED, 0), 4), 32)),)
            E.wr(st, Ptr(G_USED, 0), 4, n)
        s['NULLC::CollectMemory()'] = collect

        def insert(E, st, a, I):
            st.events = st.events + (('range', E.rd(st, E.pp(a[1]), 8), E.rd(st, E.pp(a[1]) + 8, 8)),)
            return NULL
        s['Tree<NULLC::Range>::insert(NULLC::Range const&)'] = insert
        return s

    def limits(self, Xc):
        self.lim, self.used, self.mini = Xc.int('limit', 32), Xc.int('used', 32), Xc.int('minimum', 32)
        # the last object may have been rounded up to the size of its pool
        Xc.assume(And(ult(self.lim, (1 << 31) - 1024, 32), ule(self.used, add(self.lim, 512, 32), 32)))
        for g, v in ((G_LIMIT, self.lim), (G_USED, self.used), (G_COLLECT, self.mini)):
            Xc.put(Ptr(g, 0), 4, v)

    def setup(self, Xc):
        self.types(Xc)
        self.limits(Xc)
        self.t = self.typeid(Xc, 'type')
        self.n = Xc.int('size', 32)
        return [self.n, self.t]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        yield 'at most one error', errors(F) <= 1
        blocks = [e for e in F.events if e[0] == 'block']
        col = [e for e in F.events if e[0] == 'collect']
        used1 = E.rd(F, Ptr(G_USED, 0), 4)
        r = E.pp(ret)
        total = add(sext(self.n, 32, 64), MARK, 64)
        if errors(F):
            yield 'a failed allocation returns null', self.isptr(Xc, r, NULL)
            yield 'fails only for a negative size, without memory or past the limit', Or(slt(self.n, 0, 32), F.ghost.get('nd', 0) > 0, And(len(col) == 1, ugt(add(total, zext(used1, 32, 64), 64), zext(self.lim, 32, 64), 64)))
            return
        yield 'one block', len(blocks) == 1
        if len(blocks) != 1:
            return
        yield 'the size is not negative', sge(self.n, 0, 32)
        bs = blocks[0][1] if not isc(blocks[0][1]) else blocks[0][1] & M(64)
        yield 'the object lies inside the block', ule(add(r.off if r.base else 0, sext(self.n, 32, 64), 64), bs, 64)
        yield 'the object is preceded by its header', And(r.base == 'block', uge(r.off, MARK, 64)) if r.base else False
        if r.base != 'block':
            return
        # an object without a type has no finalizer
        fin = And(ne(self.t, 0, 32), ne(and_(self.tf(Xc, E0, self.t, 'typeFlags'), K()['ExternTypeInfo::TYPE_HAS_FINALIZER'], 8), 0, 8))
        yield 'the header holds the type and the finalizer flag', eq(E.rd(F, r + (-MARK & M(64)), 8), or_(shl(zext(self.t, 32, 64), 8, 64), ite(fin, FINALIZABLE, 0, 64), 64), 64)
        o = E.obj(F, 'block')
        yield 'the object is zero', forall(Xc, 'zero', sext(self.n, 32, 64), lambda i: eq(simp(o.byte(simp(add(r.off, i, 64)))), 0, 8))
        rng = [e for e in F.events if e[0] == 'range']
        big = ugt(total, 512, 64)
        yield 'an object outside of the pools is registered with the collector', Iff(big, len(rng) == 1)
        if rng:
            yield 'the collector knows the whole block', And(self.isptr(Xc, rng[0][1], Ptr('block', 0)), self.isptr(Xc, rng[0][2], Ptr('block', simp(add(r.off, sext(self.n, 32, 64), 64)))))
            yield 'the block holds its size for the collector', eq(E.rd(F, Ptr('block', 0), 4), add(self.n, MARK, 32), 32)
        rs = bs if not rng else total
        base = self.used if not col else sub(used1, trunc(rs, 64, 32), 32)
        yield 'the memory of the block is accounted for', eq(used1, add(base, trunc(rs, 64, 32), 32), 32)
        yield 'the memory limit is respected', ule(add(zext(base, 32, 64), total, 64), zext(self.lim, 32, 64), 64)


class NewArray(Builtin):
    fn = 'NULLC::AllocArray'
    name = 'array allocation'

    def stubs(self, Xc):
        s = super().stubs(Xc)

        def alloc(E, st, a, I):
            size, typ = a
            c = Or(ndbool(E, st, 'allocfail'), slt(size, 0, 32))
            s2 = st.copy()
            s2.pc = s2.pc + (c,)
            s2.events = s2.events + (('error',),)
            st.pc = st.pc + (z3.Not(c),)
            st.events = st.events + (('alloc', 'block', size, typ),)
            E.new_obj(st, 'block', simp(add(zext(size, 32, 64), MARK, 64)), ('zero',))
            self.mark0 = or_(shl(zext(typ, 32, 64), 8, 64), zext(self.fin, 1, 64) if not isinstance(self.fin, int) else 0, 64)
            E.wr(st, Ptr('block', 0), 8, self.mark0)
            return [(s2, NULL), (st, Ptr('block', MARK))]
        s['NULLC::AllocObject(int, unsigned int)'] = alloc
        return s

    fin = 0

    def setup(self, Xc):
        self.types(Xc)
        self.lim = Xc.int('limit', 32)
        Xc.assume(ult(self.lim, (1 << 31) - 1024, 32))
        Xc.put(Ptr(G_LIMIT, 0), 4, self.lim)
        self.t = self.typeid(Xc, 'type')
        self.al = self.tf(Xc, Xc.st, self.t, 'defaultAlign')
        Xc.assume(ule(self.al, 16, 8))
        self.sz, self.n = Xc.int('size', 32), Xc.int('count', 32)
        return [self.sz, self.n, self.t]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        rp, rl = ret
        r = E.pp(rp)
        al = allocs(F)
        b = simp(mul(zext(self.sz, 32, 64), zext(self.n, 32, 64), 64))
        fits = ule(b, zext(self.lim, 32, 64), 64)
        yield 'at most one error', errors(F) <= 1
        yield from self.same(Xc, E0, F, 'types')
        if errors(F):
            yield 'fails only for an array that does not fit into memory', Or(Not(fits), F.ghost.get('nd', 0) > 0)
            yield 'a failed allocation returns the empty array', And(self.isptr(Xc, r, NULL), eq(rl, 0, 32))
            return
        yield 'fits into memory', fits
        yield 'one block', And(len(al) == 1, r.base == 'block')
        if len(al) != 1 or r.base != 'block':
            return
        yield 'type of the elements', eq(al[0][3], self.t, 32)
        yield 'number of elements', eq(rl, self.n, 32)
        yield 'all elements lie inside the block', ule(add(r.off, b, 64), E.obj(F, 'block').size, 64)
        yield 'the collector finds the number of elements before them', And(uge(r.off, MARK + 4, 64), eq(E.rd(F, r + (-4 & M(64)), 4), self.n, 32))
        pad = sub(r.off, MARK, 64)
        yield 'distance of the elements from the header, as the collector expects it', eq(pad, ite(ugt(self.al, 4, 8), zext(self.al, 8, 64), 4, 64), 64)
        yield 'the header is marked as an array', eq(E.rd(F, Ptr('block', 0), 8), or_(shl(zext(self.t, 32, 64), 8, 64), ARRAY, 64), 64)
        o = E.obj(F, 'block')
        yield 'the elements are zero', forall(Xc, 'zero', b, lambda i: eq(simp(o.byte(simp(add(r.off, i, 64)))), 0, 8))


# ---------------------------------------------------------------- coroutines, classes, upvalues
class CloseUp(Builtin):
    """upvalue list of a variable: every closure that captured it gets its own copy; lists of up to three closures"""
    fn = 'NULLC::CloseUpvalue'
    name = '__closeUpvalue'
    check_overlap = False

    def setup(self, Xc):
        self.n = Xc.choice('entries', [0, 1, 2, 3])
        self.k = Xc.choice('arguments', ['list', 'no list', 'no variable'])
        self.m = self.n if not self.n else Xc.choice('captured', [self.n, self.n - 1])
        self.size, self.off = Xc.int('size', 32), Xc.int('offset', 32)
        # the copy lies behind target and next of the entry
        Xc.assume(And(uge(self.off, 16, 32), ule(self.off, 1 << 16, 32), ule(self.size, 1 << 16, 32)))
        esz = simp(add(zext(self.off, 32, 64), zext(self.size, 32, 64), 64))
        Xc.obj('var', simp(zext(self.size, 32, 64)))
        Xc.obj('other', 8)
        Xc.obj('list', 8)
        for i in range(self.n):
            Xc.obj('up%d' % i, esz)
        for i in range(self.n):
            Xc.put(Ptr('up%d' % i, 0), 8, Ptr('var' if i < self.m else 'other', 0))
            Xc.put(Ptr('up%d' % i, 8), 8, Ptr('up%d' % (i + 1), 0) if i + 1 < self.n else NULL)
        Xc.put(Ptr('list', 0), 8, Ptr('up0', 0) if self.n else NULL)
        # the variable is alive: it is no other object
        Xc.assume(ne(Xc.E.addr('var'), Xc.E.addr('other'), 64))
        return [NULL if self.k == 'no list' else Ptr('list', 0), NULL if self.k == 'no variable' else Ptr('var', 0), self.off, self.size]

    def post(self, Xc, E0, F, ret):
        yield from self.same(Xc, E0, F, 'var', 'other')
        if self.k != 'list':
            yield 'null is an error', errors(F) == 1
            yield from self.same(Xc, E0, F, 'list', *['up%d' % i for i in range(self.n)])
            return
        yield 'no error', errors(F) == 0
        o64 = zext(self.off, 32, 64)
        for i in range(self.n):
            u = Ptr('up%d' % i, 0)
            if i >= self.m:
                yield 'closures of another variable are unchanged', unchanged(Xc, E0, F, u.base)
                continue
            yield 'the closure refers to its own copy', self.isptr(Xc, self.rdp(Xc, F, u), u + o64)
            yield 'the closure leaves the list', self.isptr(Xc, self.rdp(Xc, F, u + 8), NULL)
            yield 'the copy holds the variable', bytes_equal(Xc, 'c', F, u + o64, E0, Ptr('var', 0), zext(self.size, 32, 64))
        yield 'the list goes on with the first other closure', self.isptr(Xc, self.rdp(Xc, F, Ptr('list', 0)), Ptr('up%d' % self.m, 0) if self.m < self.n else NULL)


class Corout(Builtin):
    def __init__(self, fn, name):
        self.fn, self.name = 'NULLC::' + fn, name

    def setup(self, Xc):
        k = K()
        self.types(Xc)
        self.t = self.typeid(Xc, 'type')
        self.id = Xc.int('function', 32)
        Xc.assume(ult(self.id, 8, 32))
        self.isf = eq(self.tf(Xc, Xc.st, self.t, 'subCat'), k['ExternTypeInfo::CAT_FUNCTION'], 32)
        self.co = eq(Xc.E.rd(Xc.st, Ptr('functions', simp(add(mul(zext(self.id, 32, 64), k['sizeof(ExternFuncInfo)'], 64), k['OFF(ExternFuncInfo,funcCat)'], 64))), 1), k['ExternFuncInfo::COROUTINE'], 8)
        self.k = Xc.choice('function', ['function', 'no context', 'null'])
        if self.k == 'null':
            p = NULL
        else:
            Xc.obj('context', 16)
            p = Xc.obj('fptr', 12)
            Xc.put(p, 8, Ptr('context', 0) if self.k == 'function' else NULL)
            Xc.put(p + 8, 4, self.id)
        return [self.ref(Xc, 'f', self.t, p)]

    def post(self, Xc, E0, F, ret):
        yield 'at most one error', errors(F) <= 1
        yield from self.same(Xc, E0, F, 'fptr', 'context', 'functions')
        acc = And(self.isf, self.k != 'null', self.co)
        if ret is None:
            yield 'error exactly when the value is not a coroutine', Iff(acc, errors(F) == 0)
            return
        acc = And(acc, self.k == 'function')
        yield 'error exactly when the value is not a coroutine', Iff(acc, errors(F) == 0)
        if self.k == 'function' and not errors(F):
            yield 'reset exactly when it starts from the beginning', eq(ret, b2i(eq(Xc.E.rd(E0, Ptr('context', 0), 4), 0, 32), 32), 32)
        else:
            yield 'false after an error', Or(errors(F) == 0, eq(ret, 0, 32))


class Derived(Builtin):
    """class hierarchy tests: the type itself and all its base classes"""
    cut_all = True

    def __init__(self, check):
        self.check = check
        self.fn = 'NULLC::' + ('AssertDerivedFrom' if check else 'IsDerivedFrom')
        self.name = '__assert_derived_from' if check else 'is_derived_from'

    def setup(self, Xc):
        self.types(Xc)
        self.E, self.X = Xc.E, Xc
        self.isa = UF('isa', [32, 32], 1)
        self.t = self.typeid(Xc, 'type')
        self.b = self.typeid(Xc, 'base')
        self.E0 = Xc.st.copy()
        self.k = 'object'
        if self.check:
            self.k = Xc.choice('object', ['object', 'null'])
            if self.k == 'null':
                return [NULL, self.b]
            Xc.obj('obj', 16)
            Xc.put(Ptr('obj', 0), 4, self.t)
            self.assume_isa(Xc)
            return [Ptr('obj', 0), self.b]
        self.assume_isa(Xc)
        return [self.ref(Xc, 'd', self.t, NULL), self.b]

    def assume_isa(self, Xc):
        Xc.assume(self.unfold(self.t))

    def base(self, i):
        return self.tf(self.X, self.E0, i, 'baseType')

    def rel(self, i):
        return self.isa(bv(i, 32), bv(self.b, 32)) == 1

    def unfold(self, i):
        n = self.base(i)
        return And(Iff(self.rel(i), Or(eq(i, self.b, 32), And(ne(n, 0, 32), self.rel(n)))), ult(n, self.nt, 32))

    def templates(self, E, f, header, view):
        out = []
        for a, w, i, c, s in view.phis:
            if w != 32:
                continue

            def fn(v, a=a):
                d = {x: c for x, w, i, c, s in v.phis}
                return And(Iff(self.rel(d[a]), self.rel(self.t)), ult(d[a], self.nt, 32))

            def facts(v, a=a):
                d = {x: c for x, w, i, c, s in v.phis}
                return And(self.unfold(d[a]), self.unfold(self.base(d[a])))
            out.append(('isa %s' % a, fn, facts))
        return out

    def post(self, Xc, E0, F, ret):
        yield from self.same(Xc, E0, F, 'types', 'obj')
        if self.check:
            yield 'returns the object', self.isptr(Xc, ret, Ptr('obj', 0) if self.k == 'object' else NULL)
            yield 'error exactly when the object is of an unrelated class', Iff(errors(F) == 0, self.rel(self.t) if self.k == 'object' else True)
            return
        ext = ne(and_(self.tf(Xc, E0, self.b, 'typeFlags'), K()['ExternTypeInfo::TYPE_IS_EXTENDABLE'], 8), 0, 8)
        yield 'error exactly when the base is not an extendable class', And(Iff(errors(F) == 0, ext), errors(F) <= 1)
        yield 'true exactly for the class itself and its base classes', Iff(ne(b2i(ret, 8), 0, 8), self.rel(self.t))


def contracts():
    out = [Str2('LongToStr', 'long.str', 64), NewObject(), NewArray(), CloseUp(), Duplicate(), Replace(), Swap(), Equal(), Assign(), DuplicateArray(), ArrayCopy(), StrEqual(), StrNEqual(), Concat(), ConcatSet(),
           Str2('ShortToStr', 'short.str', 16), Str2('IntToStr', 'int.str', 32), Redirect(), RedirectPtr(), TypeId(), TypeSize(),
           AAssign(), AAssignRev(), AIndex(), ANew(), ASet(), AShrink(),
           Corout('IsCoroutineReset', 'isCoroutineReset'), Corout('AssertCoroutine', '__assertCoroutine'), Derived(False), Derived(True)]
    for fn, kd, op in (('Char', 'i8', 32), ('Short', 'i16', 32), ('Int', 'i32', 32), ('Long', 'i64', 64), ('UnsignedValueChar', 'u8', 32), ('UnsignedValueShort', 'u16', 32), ('UnsignedValueInt', 'u32', 64),
                       ('TypesEqual', 'types', 'eq'), ('TypesNEqual', 'types', 'ne'), ('RefCompare', 'ref', 'eq'), ('RefNCompare', 'ref', 'ne'), ('RefLCompare', 'ref', 'ult'), ('RefLECompare', 'ref', 'ule'),
                       ('RefGCompare', 'ref', 'ugt'), ('RefGECompare', 'ref', 'uge'), ('FuncCompare', 'func', 'eq'), ('FuncNCompare', 'func', 'ne'), ('ArrayCompare', 'arr', 'eq'), ('ArrayNCompare', 'arr', 'ne')):
        out.append(Simple(fn, kd, op))
    return out


def prepare():
    K()
