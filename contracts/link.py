"""Linking: code, data and type information of a module are appended to the program, every reference is redirected to where its target now is, and nothing else changes.
Linker::LinkCode (with the microcode fix-up functions it calls)."""
from .common import *
from vc import builtins

VECS = [('exTypes', 'ExternTypeInfo'), ('exTypeExtra', 'ExternMemberInfo'), ('exTypeConstants', 'ExternConstantInfo'), ('exVariables', 'ExternVarInfo'), ('exFunctions', 'ExternFuncInfo'),
        ('exFunctionExplicitTypeArrayOffsets', 'unsigned'), ('exFunctionExplicitTypes', 'unsigned'), ('exLocals', 'ExternLocalInfo'), ('exModules', 'ExternModuleInfo'), ('exSymbols', 'char'),
        ('exSource', 'char'), ('exImportPaths', 'char'), ('exMainModuleName', 'char'), ('exRegVmCode', 'RegVmCmd'), ('exRegVmSourceInfo', 'ExternSourceInfo'), ('exRegVmExecCount', 'unsigned'),
        ('exRegVmConstants', 'unsigned'), ('exRegVmRegKillInfo', 'char'), ('regVmJumpTargets', 'unsigned'), ('expiredRegVmCode', 'void*'), ('expiredRegVmConstants', 'void*'),
        ('typeRemap', 'unsigned'), ('funcRemap', 'unsigned'), ('moduleRemap', 'unsigned')]
ELEM = dict(VECS)
FIELDS = {
    'ExternTypeInfo': ['offsetToName', 'size', 'subCat', 'typeFlags', 'pointerCount', 'memberCount', 'arrSize', 'constantCount', 'constantOffset', 'subType', 'memberOffset', 'nameHash', 'baseType'],
    'ExternMemberInfo': ['type'], 'ExternConstantInfo': ['type'],
    'ExternVarInfo': ['offsetToName', 'type', 'offset'],
    'ExternFuncInfo': ['offsetToName', 'regVmAddress', 'regVmCodeSize', 'isVisible', 'funcPtrRaw', 'funcPtrWrap', 'isGenericInstance', 'funcType', 'parentType', 'contextType', 'offsetToFirstLocal',
                       'explicitTypeCount', 'nameHash'],
    'ExternLocalInfo': ['type', 'offsetToName'],
    'ExternModuleInfo': ['nameHash', 'nameOffset', 'funcStart', 'funcCount', 'variableOffset', 'sourceOffset', 'sourceSize'],
    'ExternSourceInfo': ['instruction', 'definitionModule', 'sourceOffset'],
    'RegVmCmd': ['code', 'rA', 'rB', 'rC', 'argument'],
}
BC = ['size', 'typeCount', 'dependsCount', 'offsetToFirstModule', 'globalVarSize', 'variableCount', 'offsetToFirstVar', 'functionCount', 'moduleFunctionCount', 'offsetToFirstFunc', 'localCount',
      'offsetToLocals', 'regVmInfoSize', 'regVmOffsetToInfo', 'regVmCodeSize', 'regVmOffsetToCode', 'regVmConstantCount', 'regVmOffsetToConstants', 'regVmRegKillInfoCount', 'regVmOffsetToRegKillInfo',
      'symbolLength', 'offsetToSymbols', 'sourceSize', 'offsetToSource', 'offsetToConstants']
LOADS = ['LoadByte', 'LoadWord', 'LoadDword', 'LoadLong', 'LoadFloat', 'LoadDouble']
STORES = ['StoreByte', 'StoreWord', 'StoreDword', 'StoreLong', 'StoreFloat', 'StoreDouble']
_I = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Mod', 'Less', 'Greater', 'Lequal', 'Gequal', 'Equal', 'Nequal', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor']
BINARY = _I + [x + 'l' for x in _I] + ['Addd', 'Subd', 'Muld', 'Divd', 'Addf', 'Subf', 'Mulf', 'Divf', 'Powd', 'Modd', 'Lessd', 'Greaterd', 'Lequald', 'Gequald', 'Equald', 'Nequald']
MEMORY = LOADS + STORES + ['GetAddr'] + BINARY                  # operations with an operand in memory: base rC, displacement argument
PLAIN = ['Nop', 'LoadImm', 'Combinedd', 'Breakupdd', 'Mov', 'MovMult', 'Dtoi', 'Dtol', 'Dtof', 'Itod', 'Ltod', 'Itol', 'Ltoi', 'Index', 'SetRange', 'MemCopy', 'AddImm', 'AddImml', 'Neg', 'Negl', 'Negd',
         'BitNot', 'BitNotl', 'LogNot', 'LogNotl']
JUMPS = ['Jmp', 'Jmpz', 'Jmpnz']
REFS = ['ConvertPtr', 'FuncAddr', 'Typeid']
MICRO = ['Call', 'Push', 'PushQword', 'PushImm', 'PushImmq', 'PushMem', 'Return', 'Pop', 'Popq', 'PopMem']
_k = None


def K():
    global _k
    if _k is None:
        ex = ['sizeof(Linker)', 'sizeof(ByteCode)', 'OFF(Linker,globalVarSize)', 'OFF(Linker,linkError)', 'OFF(Linker,debugOutputIndent)', 'OFF(Linker,typeMap)', 'OFF(Linker,funcMap)', 'ExternTypeInfo::CAT_NONE', 'ExternTypeInfo::CAT_ARRAY',
              'ExternTypeInfo::CAT_POINTER', 'ExternTypeInfo::CAT_FUNCTION', 'ExternTypeInfo::CAT_CLASS', 'ExternTypeInfo::TYPE_IS_COMPLETED', 'rvrrGlobals', 'rvrrConstants', 'rvrrFrame', 'rvrrRegisters',
              'OFF(FastVector<int>,data)', 'OFF(FastVector<int>,max)', 'OFF(FastVector<int>,count)', 'OFF(HashMap<unsigned>::Node,value)', 'OFF(HashMap<unsigned>::Node,hash)']
        ex += ['OFF(Linker,%s)' % v for v, t in VECS]
        ex += ['sizeof(%s)' % t for t in sorted(set(ELEM.values()))]
        ex += ['OFF(%s,%s)' % (t, f) for t, fs in FIELDS.items() for f in fs]
        ex += ['OFF(ByteCode,%s)' % f for f in BC]
        ex += ['rvi' + x for x in MEMORY + PLAIN + JUMPS + REFS + ['Call', 'CallPtr', 'Return']] + ['rvmi' + x for x in MICRO]
        _k = build.probe(['stdafx.h', 'Bytecode.h', 'InstructionTreeRegVm.h', 'Linker.h', 'HashMap.h'], ex)
    return _k


def es(t):
    return K()['sizeof(%s)' % t]


def fo(t, f):
    return K()['OFF(%s,%s)' % (t, f)]


def lo(f):
    return K()['OFF(Linker,%s)' % f]


GLOB = '_ZN5NULLC21lookupMissingFunctionE'


class Link(Contract):
    tus = ['Linker.cpp', 'Bytecode.cpp']
    fn = 'Linker::LinkCode'
    replayable = False
    NT = 3              # types of the program
    NM = 2              # modules of the program
    # contents of the linked module
    types = 2           # found among the types of the program unless the scenario says otherwise
    deps = 1
    modfuncs = 2
    vars = locals = infos = kills = funcs = 0
    explicit = 0
    code = 0
    consts = 0
    source = 0
    slack = 64
    remaps = {0: 0, 1: 2, 2: 1}
    unknown = ()        # types of the module that the program does not know
    light = False       # the other tables are checked by other contracts
    sizes = {}          # tables of the program of the given sizes
    sym = ()            # tables of the program of arbitrary size
    max_steps = 3000000
    timeout = 30000

    def stubs(self, Xc):
        k = K()

        def mk(size):
            def h(E, st, a, I):
                E.fresh_n += 1
                return E.new_obj(st, 'grown!%d' % E.fresh_n, simp(mul(sext(a[0], 32, 64), size, 64)))
            return h

        def free(E, st, a, I):
            p = E.pp(a[0])
            st.events = st.events + (('free', p.base),)
            return None
        s = dict(TRACE)
        for m in [build.module(t) for t in self.tus]:
            for n, d in build.demangle(list(m.functions)).items():
                for t in set(ELEM.values()) | {'RegVmCmd*', 'unsigned int*', 'unsigned int', 'unsigned char'}:
                    size = 8 if t.endswith('*') else {'unsigned int': 4, 'unsigned char': 1}.get(t) or es(t)
                    if d == '%s* NULLC::construct<%s>(int)' % (t, t) or d == '%s** NULLC::construct<%s*>(int)' % (t[:-1], t[:-1]) and t.endswith('*'):
                        s[n] = mk(size)
                    if d.startswith('void NULLC::destruct<%s>(' % t):
                        s[n] = free

        s['_ZN5NULLC10copyMemoryEPvPKvm'] = builtins.b_memcpy

        def maps(st):
            return st.ghost.get('maps', ())

        def mapid(a):
            return {lo('typeMap'): 'types', lo('funcMap'): 'funcs'}[a.off]

        def clear(E, st, a, I):
            m = mapid(E.pp(a[0]))
            st.ghost['maps'] = tuple(e for e in maps(st) if e[0] != m)

        def insert(E, st, a, I):
            st.ghost['maps'] = maps(st) + ((mapid(E.pp(a[0])), a[1], a[2]),)

        def node(E, st, n, e):
            p = E.new_obj(st, 'node!%d' % n, 32)
            E.wr(st, p + k['OFF(HashMap<unsigned>::Node,hash)'], 4, e[1])
            E.wr(st, p + k['OFF(HashMap<unsigned>::Node,value)'], 4, e[2])
            return p

        def lookup(E, st, m, h, below, val):
            """the entry inserted last with this hash"""
            out = []
            ms = maps(st)
            for i in range(min(below, len(ms)) - 1, -1, -1):
                if ms[i][0] != m:
                    continue
                c = simp(eq(ms[i][1], h, 32))
                if c is False:
                    continue
                s2 = st.copy()
                if c is not True:
                    s2.pc = s2.pc + (c,)
                p = node(E, s2, i, ms[i])
                out.append((s2, p + (k['OFF(HashMap<unsigned>::Node,value)'] if val else 0)))
                if c is True:
                    return out
                st.pc = st.pc + (Not(c),)
            out.append((st, NULL))
            return out

        def find(E, st, a, I):
            return lookup(E, st, mapid(E.pp(a[0])), a[1], 1 << 20, True)

        def first(E, st, a, I):
            return lookup(E, st, mapid(E.pp(a[0])), a[1], 1 << 20, False)

        def nxt(E, st, a, I):
            p = E.pp(a[1])
            i = int(p.base.split('!')[1])
            e = maps(st)[i]
            return lookup(E, st, e[0], e[1], i, False)

        def hash_(E, st, a, I):
            p = E.pp(a[0])
            return self.hashes.get((p.base, p.off), None) if (p.base, p.off) in self.hashes else self.bad('hash of %s' % p)

        def findbc(E, st, a, I):
            p = E.pp(a[0])
            st.events = st.events + (('findbytecode', p.base, p.off),)
            return self.bytecode(E, st, p)

        def sprintf(E, st, a, I):
            p = E.pp(a[0])
            st.events = st.events + (('print', p.base),)
            return 0

        def missing(E, st, a, I):
            return NULL
        s.update({'HashMap<unsigned int>::clear()': clear, 'HashMap<unsigned int>::insert(unsigned int, unsigned int)': insert, 'HashMap<unsigned int>::find(unsigned int)': find,
                  'HashMap<unsigned int>::first(unsigned int)': first, 'HashMap<unsigned int>::next(HashMap<unsigned int>::Node*)': nxt, 'NULLC::GetStringHash(char const*)': hash_,
                  'BinaryCache::FindBytecode(char const*, bool)': findbc, 'BinaryCache::EnumImportPath(unsigned int)': lambda E, st, a, I: NULL,
                  'strcmp': lambda E, st, a, I: 1,       # imports of these contracts are never the module that is linked last
                  'NULLC::SafeSprintf(char*, unsigned long, char const*, ...)': sprintf})
        return s

    def bad(self, m):
        raise Unsupported(m)

    def bytecode(self, E, st, p):
        return NULL

    # ------------------------------------------------------------------ entry
    def vec(self, Xc, name, count, slack):
        k = K()
        p = Ptr('linker', lo(name))
        mx = simp(add(count, slack, 32))
        o = 'v:' + name
        sz = simp(mul(zext(mx, 32, 64), es(ELEM[name]), 64))
        Xc.obj(o, sz)
        Xc.put(p + k['OFF(FastVector<int>,data)'], 8, Ptr(o, 0))
        Xc.put(p + k['OFF(FastVector<int>,max)'], 4, mx)
        Xc.put(p + k['OFF(FastVector<int>,count)'], 4, count)
        self.old[name] = count

    def bcput(self, Xc, f, v):
        Xc.put(Ptr('bc', K()['OFF(ByteCode,%s)' % f]), 4, v)

    def rec(self, table, i, t=None):
        """record i of a table of the module"""
        return Ptr('bc', self.tab[table] + i * es(t or self.ttype[table]))

    def fld(self, Xc, p, t, f, n=4, S=None):
        return Xc.E.rd(S or Xc.st, p + fo(t, f), n)

    def setup(self, Xc):
        k = K()
        E = Xc.E
        st = Xc.st
        self.old, self.tab = {}, {}
        Xc.obj('linker', k['sizeof(Linker)'])
        L = Ptr('linker', 0)
        for name, t in VECS:
            if name == 'exTypes':
                self.vec(Xc, name, self.NT, 8)
            elif name == 'exModules':
                self.vec(Xc, name, self.NM, 8)
            elif name in ('exRegVmExecCount', 'exFunctionExplicitTypeArrayOffsets'):
                # these tables run in step with the code and the functions
                self.vec(Xc, name, self.old['exRegVmCode' if name == 'exRegVmExecCount' else 'exFunctions'], self.slack)
            elif name in self.sym:
                c = Xc.int('count.' + name, 32)
                Xc.assume(And(ule(c, 1 << 20, 32), uge(c, 8, 32)))
                self.vec(Xc, name, c, self.slack)
            elif name in self.sizes:
                self.vec(Xc, name, Xc.choice('count.' + name, self.sizes[name]), self.slack)
            else:
                self.vec(Xc, name, 11 + 7 * len(self.old), self.slack)
        self.gvs = Xc.int('globalVarSize', 32)
        Xc.assume(ule(self.gvs, 1 << 28, 32))
        Xc.put(L + lo('globalVarSize'), 4, self.gvs)
        # tables of the module
        pos = k['sizeof(ByteCode)']
        nf = self.funcs
        self.ttype = dict(types='ExternTypeInfo', members='ExternMemberInfo', tconsts='ExternConstantInfo', modules='ExternModuleInfo', vars='ExternVarInfo', funcs='ExternFuncInfo',
                          locals='ExternLocalInfo', infos='ExternSourceInfo', code='RegVmCmd', consts='unsigned', kills='char', symbols='char', source='char')
        self.cnt = dict(types=self.types, members=8, tconsts=4, modules=self.deps, vars=self.vars + self.explicit, funcs=self.funcs, locals=self.locals, infos=self.infos, code=self.code, consts=self.consts,
                        kills=self.kills, symbols=16, source=self.source)
        for t in ('types', 'members', 'tconsts', 'modules', 'vars', 'funcs', 'locals', 'infos', 'code', 'consts', 'kills', 'symbols', 'source'):
            pos = (pos + 7) // 8 * 8 if t not in ('types', 'members') else pos
            self.tab[t] = pos
            pos += self.cnt[t] * es(self.ttype[t])
        Xc.obj('bc', pos)
        Xc.align['bc'] = 16
        self.bgs = Xc.int('module.globalVarSize', 32)
        Xc.assume(ule(self.bgs, 1 << 24, 32))
        put = lambda f, v: self.bcput(Xc, f, v)
        put('typeCount', self.types)
        # FindFirstType: directly after the header
        put('dependsCount', self.deps)
        put('offsetToFirstModule', self.tab['modules'])
        put('globalVarSize', self.bgs)
        put('variableCount', self.vars)
        put('offsetToFirstVar', self.tab['vars'])
        put('moduleFunctionCount', self.modfuncs if self.deps else 0)
        put('functionCount', (self.modfuncs if self.deps else 0) + self.funcs)
        put('offsetToFirstFunc', self.tab['funcs'])
        put('localCount', self.locals)
        put('offsetToLocals', self.tab['locals'])
        put('regVmInfoSize', self.infos)
        put('regVmOffsetToInfo', self.tab['infos'])
        put('regVmCodeSize', self.code)
        put('regVmOffsetToCode', self.tab['code'])
        put('regVmConstantCount', self.consts)
        put('regVmOffsetToConstants', self.tab['consts'])
        put('regVmRegKillInfoCount', self.kills)
        put('regVmOffsetToRegKillInfo', self.tab['kills'])
        put('symbolLength', 16)
        put('offsetToSymbols', self.tab['symbols'])
        put('sourceSize', self.source)
        put('offsetToSource', self.tab['source'])
        put('offsetToConstants', self.tab['tconsts'])
        # types: by default all of them are known
        self.thash = [0x1000 + i for i in range(self.NT)]
        for i in range(self.NT):
            Xc.put(Ptr('v:exTypes', i * es('ExternTypeInfo') + fo('ExternTypeInfo', 'nameHash')), 4, self.thash[i])
        self.remap = dict(self.remaps)
        for i in range(self.types):
            if i not in self.unknown:
                self.known(Xc, i, self.remap[i])
        # imported modules
        self.hashes = {}
        self.mods = {}
        mt = 'ExternModuleInfo'
        for j in range(self.deps):
            p = self.rec('modules', j)
            n = self.modfuncs if j == 0 else 0
            Xc.put(p + fo(mt, 'funcCount'), 4, n)
            Xc.put(p + fo(mt, 'funcStart'), 4, 0 if j == 0 else self.modfuncs)
            Xc.put(p + fo(mt, 'nameOffset'), 4, 4 * j)
            self.hashes[('bc', self.tab['symbols'] + 4 * j)] = 0x2000 + j
        for m in range(self.NM):
            q = Ptr('v:exModules', m * es(mt))
            j = {1: 0, 0: 1}.get(m) if self.deps > 1 else {1: 0}.get(m)       # import 0 is module 1 of the program, import 1 is module 0
            Xc.put(q + fo(mt, 'nameHash'), 4, 0x2000 + j if j is not None else 0x3000 + m)
            if j is not None:
                self.mods[j] = m
            fs = self.fld(Xc, q, mt, 'funcStart')
            Xc.assume(And(ule(self.fld(Xc, q, mt, 'variableOffset'), 1 << 28, 32), ule(add(fs, self.modfuncs, 32), self.old['exFunctions'], 32), ule(fs, 1 << 20, 32),
                          ule(self.fld(Xc, q, mt, 'sourceOffset'), 1 << 20, 32)))
        self.exp = {}       # vector -> appended records: (source pointer, {offset: (size, value)})
        self.moddefs = []
        self.extra(Xc)
        Xc.E.mem_before = None
        return [L, Ptr('bc', 0), NULL, False]

    def known(self, Xc, i, j):
        p = self.rec('types', i)
        t = 'ExternTypeInfo'
        q = Ptr('v:exTypes', j * es(t))
        Xc.put(p + fo(t, 'nameHash'), 4, self.thash[j])
        comp = K()['ExternTypeInfo::TYPE_IS_COMPLETED']
        Xc.assume(eq(self.fld(Xc, p, t, 'size'), self.fld(Xc, q, t, 'size'), 32))
        Xc.assume(ne(and_(self.fld(Xc, q, t, 'typeFlags', 1), comp, 8), 0, 8))

    def extra(self, Xc):
        pass

    def var(self, Xc, ref, S=None):
        """where a reference to a global variable of the module (or, in the upper 8 bits, of an import) is in the program"""
        r = simp(add(ref, self.gvs, 32))
        for j, m in self.mods.items():
            vo = self.fld(Xc, Ptr('v:exModules', m * es('ExternModuleInfo')), 'ExternModuleInfo', 'variableOffset', 4, S or self.E0)
            r = ite(eq(lshr(ref, 24, 32), j + 1, 32), add(and_(ref, 0xffffff, 32), vo, 32), r, 32)
        return simp(r)

    def func(self, Xc, i):
        if i < (self.modfuncs if self.deps else 0):
            return self.fld(Xc, Ptr('v:exModules', self.mods[0] * es('ExternModuleInfo')), 'ExternModuleInfo', 'funcStart', 4, self.E0) + i
        return simp(add(self.old['exFunctions'], i - (self.modfuncs if self.deps else 0), 32))

    # ------------------------------------------------------------------ exit
    def at(self, Xc, S, name):
        k = K()
        p = Ptr('linker', lo(name))
        return Xc.E.pp(Xc.E.rd(S, p + k['OFF(FastVector<int>,data)'], 8)), Xc.E.rd(S, p + k['OFF(FastVector<int>,count)'], 4), Xc.E.rd(S, p + k['OFF(FastVector<int>,max)'], 4)

    def changed(self, Xc, name):
        """{offset: (size, value)} of allowed changes of records that were there before"""
        if name != 'exModules':
            return {}
        t = 'ExternModuleInfo'
        out = {}
        for j, m in self.mods.items():
            o = m * es(t) + fo(t, 'nameOffset')
            v = Xc.E.rd(self.E0, Ptr('v:exModules', o), 4)
            n = simp(add(Xc.E.rd(self.E0, self.rec('modules', j) + fo(t, 'nameOffset'), 4), self.old['exSymbols'], 32))
            out[o] = (4, simp(ite(eq(v, 0, 32), n, v, 32)))
        return out

    SKIP = ('typeRemap', 'funcRemap', 'moduleRemap', 'exImportPaths', 'exMainModuleName', 'expiredRegVmCode', 'expiredRegVmConstants')

    def post(self, Xc, E0, F, ret):
        self.E0 = E0
        E = Xc.E
        self.expect(Xc, E0)
        yield 'linking succeeds', eq(b2i(ret, 8), 1, 8) if not isinstance(ret, bool) else ret
        for name, t in VECS:
            if name in self.SKIP or self.light and name not in ('exRegVmCode', 'exRegVmConstants', 'exRegVmExecCount', 'regVmJumpTargets'):
                continue
            p, c, mx = self.at(Xc, F, name)
            recs = self.exp.get(name, [])
            old = self.old[name]
            blk = {'exSymbols': ('symbols', 16), 'exSource': ('source', self.source), 'exRegVmRegKillInfo': ('kills', self.kills)}.get(name)
            yield '%s: number of records' % name, eq(c, simp(add(old, blk[1] if blk else len(recs), 32)), 32)
            yield '%s: capacity' % name, ule(c, mx, 32)
            n = es(t)
            o0, o1 = E.obj(E0, 'v:' + name), E.obj(F, p.base)
            yield '%s: storage' % name, And(eq(p.off, 0, 64), ule(mul(zext(mx, 32, 64), n, 64), o1.size, 64))
            if o0 is not o1:
                chg = self.changed(Xc, name)

                def keep(i):
                    c = eq(simp(o0.byte(i)), simp(o1.byte(i)), 8)
                    for off, (w, v) in chg.items():
                        c = Or(ult(sub(i, off, 64), w, 64), c)
                    return c
                yield '%s: existing records are unchanged' % name, forall(Xc, name, simp(mul(zext(old, 32, 64), n, 64)), keep)
                for off, (w, v) in chg.items():
                    yield '%s: updated record' % name, eq(E.rd(F, Ptr(p.base, off), w), v, 8 * w)
            elif p.base != 'v:' + name:
                yield '%s: existing records are unchanged' % name, False
            if blk and blk[1]:
                src = E.obj(E0, 'bc')
                yield '%s: content' % name, forall(Xc, 'blk', blk[1], lambda i: eq(simp(src.byte(simp(add(self.tab[blk[0]], i, 64)))), simp(o1.byte(simp(add(old if isc(old) else zext(old, 32, 64), i, 64)))), 8))
            for j, (src, over) in enumerate(recs):
                q = Ptr(p.base, simp(mul(zext(add(old, j, 32), 32, 64), n, 64)))
                for lab, c in self.record(Xc, E0, F, q, src, over, n):
                    yield '%s: new record%s' % (name, lab), c
        yield 'size of the global variables', eq(E.rd(F, Ptr('linker', lo('globalVarSize')), 4), simp(add(self.gvs, self.bgs, 32)), 32)
        yield 'the module is unchanged', unchanged(Xc, E0, F, 'bc')
        yield 'import depth is balanced', eq(E.rd(F, Ptr('linker', lo('debugOutputIndent')), 4), E.rd(E0, Ptr('linker', lo('debugOutputIndent')), 4), 32)
        for name in ('exRegVmCode', 'exRegVmConstants'):
            # a program that is running keeps its code
            yield '%s: running code stays in memory' % name, not any(e[0] == 'free' and e[1] == 'v:' + name for e in F.events)

    def record(self, Xc, E0, F, q, src, over, n):
        E = Xc.E
        over = dict(over)
        off = 0
        while off < n:
            if off in over:
                w, v = over.pop(off)
                yield ' +%d' % off, eq(E.rd(F, q + off, w), v, 8 * w)
                off += w
                continue
            nxt = min([o for o in over if o > off] + [n])
            w = min(4, nxt - off)
            if w == 3:
                w = 2
            if src is not None:
                yield '', eq(E.rd(F, q + off, w), E.rd(E0, src + off, w), 8 * w)
            off += w

    def expect(self, Xc, E0):
        pass


class Instr(Link):
    code = 1
    sym = ('exRegVmCode', 'exRegVmConstants')
    consts = 2
    types = 3
    funcs = 0

    def __init__(self, op, label=None):
        self.ops = op if isinstance(op, list) else [op]
        self.op = self.ops[0]
        self.name = 'LinkCode: %s' % (label or 'instruction ' + op)

    def extra(self, Xc):
        k = K()
        p = self.rec('code', 0)
        if len(self.ops) == 1:
            Xc.put(p + fo('RegVmCmd', 'code'), 1, k['rvi' + self.op])
        else:
            code = self.fld(Xc, p, 'RegVmCmd', 'code', 1)
            Xc.assume(Or([eq(code, k['rvi' + o], 8) for o in self.ops]))
        f = lambda n, w=1: self.fld(Xc, p, 'RegVmCmd', n, w)
        self.rA, self.rB, self.rC, self.arg = f('rA'), f('rB'), f('rC'), f('argument', 4)
        if self.op in MEMORY:
            Xc.assume(Implies(eq(self.rC, k['rvrrGlobals'], 8), ule(lshr(self.arg, 24, 32), self.deps, 32)))
        if self.op in JUMPS:
            Xc.assume(ule(self.arg, 1 << 24, 32))
        if self.op == 'FuncAddr':
            self.target = Xc.choice('function', [0, 1])
            Xc.put(p + fo('RegVmCmd', 'argument'), 4, self.target)
        if self.op in ('Typeid', 'ConvertPtr'):
            self.target = Xc.choice('type', [0, 1, 2])
            Xc.put(p + fo('RegVmCmd', 'argument'), 4, self.target)

    def expect(self, Xc, E0):
        k = K()
        op = self.op
        o = lambda f, w, v: {fo('RegVmCmd', f): (w, v)}
        over = {}
        if op in MEMORY:
            moved = ite(eq(self.rC, k['rvrrGlobals'], 8), self.var(Xc, self.arg), ite(eq(self.rC, k['rvrrConstants'], 8), add(self.arg, mul(self.old['exRegVmConstants'], 4, 32), 32), self.arg, 32), 32)
            over = o('argument', 4, simp(moved))
        elif op in JUMPS:
            t = simp(add(self.arg, self.old['exRegVmCode'], 32))
            over = o('argument', 4, t)
            self.exp['regVmJumpTargets'] = [(None, {0: (4, t)})]
        elif op == 'FuncAddr':
            over = o('argument', 4, self.func(Xc, self.target))
            over.update(o('code', 1, k['rviLoadImm']))
        elif op == 'Typeid':
            over = o('argument', 4, self.remap[self.target])
            over.update(o('code', 1, k['rviLoadImm']))
        elif op == 'ConvertPtr':
            over = o('argument', 4, self.remap[self.target])
        self.exp['exRegVmCode'] = [(self.rec('code', 0), over)]
        self.exp['exRegVmExecCount'] = [(None, {0: (4, 0)})]
        self.exp['exRegVmConstants'] = [(self.rec('consts', i), {}) for i in range(self.consts)]


class Micro(Link):
    """an instruction with a list of operations that move its arguments and results"""
    code = 1
    sym = ('exRegVmCode',)
    types = 3
    light = True
    lead = 3      # constants in front of the list

    def __init__(self, op, push, pop=()):
        self.targets = [0, 1] if op == 'Call' and not push else [1]
        self.op, self.push, self.pop = op, push, pop
        self.name = 'LinkCode: %s with [%s]%s' % (op, ' '.join(push), ' -> [%s]' % ' '.join(pop) if op != 'Return' else '')
        self.sizes = {'exRegVmConstants': [0xfffe, 23] if op == 'Call' and not push else [23]}
        self.bases = ['rvrrGlobals', 'rvrrFrame', 'rvrrConstants', 'rvrrRegisters'] if len(push) + len(pop) == 1 else ['rvrrGlobals']
        self.consts = self.lead + 12 + 4 * (len(push) + len(pop))

    def extra(self, Xc):
        k = K()
        p = self.rec('code', 0)
        Xc.put(p + fo('RegVmCmd', 'code'), 1, k['rvi' + self.op])
        w = []
        self.mems = []

        def ops(l):
            for o in l:
                w.append(k['rvmi' + o])
                if o.endswith('Mem'):
                    base = Xc.choice('base', self.bases)
                    w.append(k[base])
                    if base == 'rvrrGlobals':
                        self.mems.append(self.lead + len(w))
                    w.append(None)
                    w.append(None)
                else:
                    w.append(None)
        if self.op == 'Return':
            self.rt = Xc.choice('result type', [0, 1, 2])
            w += [self.rt, None]
            ops(self.push)
            w.append(k['rvmiReturn'])
        else:
            ops(self.push)
            w += [k['rvmiCall'], None, None]
            ops(self.pop)
            w.append(k['rvmiReturn'])
        for i, v in enumerate(w):
            if v is not None:
                Xc.put(self.rec('consts', self.lead + i), 4, v)
        for i in self.mems:
            Xc.assume(ule(lshr(Xc.E.rd(Xc.st, self.rec('consts', i), 4), 24, 32), self.deps, 32))
        if self.op == 'Call':
            self.target = Xc.choice('function', self.targets)
            Xc.put(p + fo('RegVmCmd', 'argument'), 4, self.target)
            for f, v in (('rA', 0), ('rB', 0), ('rC', self.lead)):
                Xc.put(p + fo('RegVmCmd', f), 1, v)
        else:
            Xc.put(p + fo('RegVmCmd', 'argument'), 4, self.lead)

    def expect(self, Xc, E0):
        cs = [(self.rec('consts', i), {}) for i in range(self.consts)]
        for i in self.mems:
            cs[i][1][0] = (4, self.var(Xc, Xc.E.rd(E0, self.rec('consts', i), 4)))
        if self.op == 'Return':
            cs[self.lead][1][0] = (4, self.remap[self.rt])
        self.exp['exRegVmConstants'] = cs
        self.exp['exRegVmExecCount'] = [(None, {0: (4, 0)})]
        pos = simp(add(self.old['exRegVmConstants'], self.lead, 32))
        over = {}
        if self.op == 'Call':
            over[fo('RegVmCmd', 'argument')] = (4, self.func(Xc, self.target))
            for f, sh in (('rA', 16), ('rB', 8), ('rC', 0)):
                over[fo('RegVmCmd', f)] = (1, simp(extract(pos, sh + 7, sh)))
        else:
            over[fo('RegVmCmd', 'argument')] = (4, pos)
        self.exp['exRegVmCode'] = [(self.rec('code', 0), over)]


class Tables(Link):
    """variables, locals, source positions, register kill marks and plain code"""
    vtypes = [0, 2]
    def __init__(self, sym='exSymbols', deps=1, n=2):
        self.vars = self.locals = self.infos = n
        self.sym = (sym,)
        self.deps = deps
        self.name = 'LinkCode: variables, locals, source positions and code (%d records, %d imports%s)' % (n, deps, sym and ', any size of ' + sym)
    kills, source, code, consts = 3, 5, 1, 1
    deps = 2
    types = 3

    def extra(self, Xc):
        k = K()
        Xc.put(self.rec('code', 0) + fo('RegVmCmd', 'code'), 1, k['rviNop'])
        self.vt = [Xc.choice('variable type', self.vtypes), 1]
        for i in range(self.vars):
            Xc.put(self.rec('vars', i) + fo('ExternVarInfo', 'type'), 4, self.vt[i])
            Xc.put(self.rec('locals', i) + fo('ExternLocalInfo', 'type'), 4, 2 - self.vt[i])
            Xc.assume(ule(self.fld(Xc, self.rec('infos', i), 'ExternSourceInfo', 'definitionModule'), self.deps, 32))

    def expect(self, Xc, E0):
        E = Xc.E
        r = lambda t, i, f: E.rd(E0, self.rec(t, i) + fo(self.ttype[t], f), 4)
        sy = self.old['exSymbols']
        V, Lc, SI, MI = 'ExternVarInfo', 'ExternLocalInfo', 'ExternSourceInfo', 'ExternModuleInfo'
        self.exp['exVariables'] = [(self.rec('vars', i), {fo(V, 'type'): (4, self.remap[self.vt[i]]), fo(V, 'offset'): (4, simp(add(r('vars', i, 'offset'), self.gvs, 32))),
                                                          fo(V, 'offsetToName'): (4, simp(add(r('vars', i, 'offsetToName'), sy, 32)))}) for i in range(self.vars)]
        self.exp['exLocals'] = [(self.rec('locals', i), {fo(Lc, 'type'): (4, self.remap[2 - self.vt[i]]), fo(Lc, 'offsetToName'): (4, simp(add(r('locals', i, 'offsetToName'), sy, 32)))}) for i in range(self.vars)]
        out = []
        for i in range(self.vars):
            so = r('infos', i, 'sourceOffset')
            v = add(so, self.old['exSource'], 32)
            for j, m in self.mods.items():
                v = ite(eq(r('infos', i, 'definitionModule'), j + 1, 32), add(so, E.rd(E0, Ptr('v:exModules', m * es(MI) + fo(MI, 'sourceOffset')), 4), 32), v, 32)
            out.append((self.rec('infos', i), {fo(SI, 'instruction'): (4, simp(add(r('infos', i, 'instruction'), self.old['exRegVmCode'], 32))), fo(SI, 'sourceOffset'): (4, simp(v))}))
        self.exp['exRegVmSourceInfo'] = out
        self.plain(E0)

    def plain(self, E0):
        self.exp['exRegVmCode'] = [(self.rec('code', i), {}) for i in range(self.code)]
        self.exp['exRegVmExecCount'] = [(None, {0: (4, 0)})] * self.code
        self.exp['exRegVmConstants'] = [(self.rec('consts', i), {}) for i in range(self.consts)]


class Full(Tables):
    """every table of the program is full: it grows, and code that is running stays where it is"""
    name = 'LinkCode: tables grow'
    slack = 0
    vtypes = [0]

    def __init__(self):
        Tables.__init__(self, '', 1, 1)
        self.name = 'LinkCode: tables grow'

    def vec(self, Xc, name, count, slack):
        Tables.vec(self, Xc, name, count, 0 if name not in ('exModules', 'expiredRegVmCode', 'expiredRegVmConstants') else 8)

    def post(self, Xc, E0, F, ret):
        yield from Tables.post(self, Xc, E0, F, ret)
        for name, ex in (('exRegVmCode', 'expiredRegVmCode'), ('exRegVmConstants', 'expiredRegVmConstants')):
            p, c, mx = self.at(Xc, F, ex)
            yield '%s: replaced storage is remembered' % name, And(eq(c, self.old[ex] + 1, 32), Xc.E.icmp('eq', Xc.E.pp(Xc.E.rd(F, p + self.old[ex] * 8, 8)), Ptr('v:' + name, 0), ir.PTR))


class Types(Link):
    sym = ('exSymbols',)
    types = 3

    def __init__(self, kind):
        self.kind = kind
        self.name = 'LinkCode: %s' % {'completed': 'class declared by an import and completed by the module', 'mismatch': 'type defined again with another size'}.get(kind, 'new %s type' % kind)

    remaps = {0: 2, 1: 3, 2: 1}
    unknown = (1,)

    def extra(self, Xc):
        k = K()
        t = 'ExternTypeInfo'
        p = self.rec('types', 1)
        put = lambda f, v, n=4: Xc.put(p + fo(t, f), n, v)
        q = Ptr('v:exTypes', 0)
        if self.kind in ('completed', 'mismatch'):
            self.remap[1] = 0
            put('nameHash', self.thash[0])
            fl, old = self.fld(Xc, p, t, 'typeFlags', 1), self.fld(Xc, q, t, 'typeFlags', 1)
            comp = k['ExternTypeInfo::TYPE_IS_COMPLETED']
            Xc.assume(ne(and_(fl, comp, 8), 0, 8))
            Xc.assume(eq(and_(old, comp, 8), 0 if self.kind == 'completed' else comp, 8))
            if self.kind == 'mismatch':
                Xc.assume(ne(self.fld(Xc, p, t, 'size'), self.fld(Xc, q, t, 'size'), 32))
        else:
            put('nameHash', 0x7777)
        cat = {'plain': 'CAT_NONE', 'array': 'CAT_ARRAY', 'pointer': 'CAT_POINTER', 'function': 'CAT_FUNCTION'}.get(self.kind, 'CAT_CLASS')
        put('subCat', k['ExternTypeInfo::' + cat])
        self.base = Xc.choice('base', [0, 2]) if cat == 'CAT_CLASS' else 0
        put('baseType', self.base)
        self.nm = self.nc = 0
        if cat in ('CAT_ARRAY', 'CAT_POINTER'):
            put('subType', 0)
        elif cat in ('CAT_FUNCTION', 'CAT_CLASS'):
            n, np = Xc.choice('members', [(0, 0), (2, 0), (2, 1)]) if cat == 'CAT_CLASS' else (Xc.choice('arguments', [0, 2]), 0)
            put('memberCount', n)
            put('pointerCount', np, 2)
            self.nm = n + np + (1 if cat == 'CAT_FUNCTION' else 0)
            put('memberOffset', 1)
            self.mt = [1, 0, 2]
            for i in range(3):
                Xc.put(self.rec('members', 1 + i) + fo('ExternMemberInfo', 'type'), 4, self.mt[i])
            self.nc = 1
            put('constantCount', 1)
            put('constantOffset', 1)
            Xc.put(self.rec('tconsts', 1) + fo('ExternConstantInfo', 'type'), 4, 2)
        else:
            put('constantCount', 0)

    def expect(self, Xc, E0):
        t = 'ExternTypeInfo'
        p = self.rec('types', 1)
        rd = lambda f, n=4: Xc.E.rd(E0, p + fo(t, f), n)
        over = {fo(t, 'offsetToName'): (4, simp(add(rd('offsetToName'), self.old['exSymbols'], 32))), fo(t, 'baseType'): (4, self.remap[self.base] if self.base else 0)}
        if self.kind in ('array', 'pointer'):
            over[fo(t, 'subType')] = (4, self.remap[0])
        if self.kind in ('function', 'class', 'completed'):
            over[fo(t, 'memberOffset')] = (4, self.old['exTypeExtra'])
            over[fo(t, 'constantOffset')] = (4, self.old['exTypeConstants'])
            self.exp['exTypeExtra'] = [(self.rec('members', 1 + i), {fo('ExternMemberInfo', 'type'): (4, self.remap[self.mt[i]])}) for i in range(self.nm)]
            self.exp['exTypeConstants'] = [(self.rec('tconsts', 1), {fo('ExternConstantInfo', 'type'): (4, self.remap[2])})]
        self.over = over
        if self.kind not in ('completed', 'mismatch'):
            self.exp['exTypes'] = [(p, over)]

    def changed(self, Xc, name):
        if name == 'exTypes' and self.kind == 'completed':
            # the declaration becomes the definition
            t = 'ExternTypeInfo'
            out = dict(self.over)
            off = 0
            while off < es(t):
                if off in out:
                    off += out[off][0]
                    continue
                out[off] = (1, Xc.E.rd(self.E0, self.rec('types', 1) + off, 1))
                off += 1
            return out
        return Link.changed(self, Xc, name)

    def post(self, Xc, E0, F, ret):
        if self.kind == 'mismatch':
            yield 'linking fails', eq(b2i(ret, 8), 0, 8)
            yield 'the error is described', any(e[0] == 'print' and e[1] == 'linker' for e in F.events)
            yield 'import depth is balanced', eq(Xc.E.rd(F, Ptr('linker', lo('debugOutputIndent')), 4), Xc.E.rd(E0, Ptr('linker', lo('debugOutputIndent')), 4), 32)
            return
        yield from Link.post(self, Xc, E0, F, ret)


class Funcs(Link):
    sym = ('exRegVmCode', 'exSymbols', 'exLocals')
    types = 3
    funcs = 1
    explicit = 1

    def __init__(self, kind):
        self.kind = kind
        self.name = 'LinkCode: function, %s' % kind

    def extra(self, Xc):
        k = K()
        E = Xc.E
        t = 'ExternFuncInfo'
        kind = self.kind
        p = self.rec('funcs', 0)
        put = lambda f, v, n=4: Xc.put(p + fo(t, f), n, v)
        get = lambda f, n=4: self.fld(Xc, p, t, f, n)
        Xc.put(Ptr('g::' + GLOB, 0), 8, NULL)
        put('nameHash', 0x9999)
        put('offsetToName', 12)
        self.ft = 0 if kind == 'generic base' else 1
        put('funcType', self.ft)
        self.pt = Xc.choice('parent and context', [(None, 1), (0, None), (2, 0)]) if kind in ('of the module', 'prototype') else (2, None)
        put('parentType', M(32) if self.pt[0] is None else self.pt[0])
        put('contextType', M(32) if self.pt[1] is None else self.pt[1])
        self.ne = Xc.choice('explicit types', [0, 1])
        put('explicitTypeCount', self.ne)
        if self.ne:
            Xc.put(self.rec('vars', self.vars) + fo('ExternVarInfo', 'type'), 4, 1)
        self.addr = get('regVmAddress')
        self.proto = kind == 'prototype'
        if self.proto:
            self.target = Xc.choice('implementation', [0, 1])
            put('regVmCodeSize', 0x80000000 | self.target)
            Xc.assume(ne(self.addr, 0, 32))
        else:
            Xc.assume(eq(and_(get('regVmCodeSize'), 0x80000000, 32), 0, 32))
        raw, wrap = get('funcPtrRaw', 8), get('funcPtrWrap', 8)
        if kind in ('host', 'host without implementation'):
            put('regVmAddress', 0)
            self.addr = 0
            if kind == 'host':
                Xc.assume(Or(ne(E.p2i(E.pp(raw)), 0, 64), ne(E.p2i(E.pp(wrap)), 0, 64)))
            else:
                put('funcPtrRaw', NULL, 8)
                put('funcPtrWrap', NULL, 8)
        else:
            Xc.assume(And(ne(self.addr, 0, 32), Or(eq(self.addr, M(32), 32), ult(self.addr, 1 << 24, 32))))
        # a function of the program with the same name
        self.dup = kind in ('generic instance', 'generic base', 'defined again', 'another type', 'other explicit types', 'internal name', 'not visible')
        c = E.obj(Xc.st, 'bc')
        Xc.put(Ptr('bc', self.tab['symbols'] + 12), 1, ord('$') if kind == 'internal name' else ord('f'))
        put('isVisible', 0 if kind == 'not visible' else 1)
        put('isGenericInstance', 1 if kind == 'generic instance' else 0, 1)
        if self.dup:
            q = Ptr('v:exFunctions', 5 * es(t))
            Xc.put(q + fo(t, 'nameHash'), 4, 0x9999)
            Xc.put(q + fo(t, 'funcType'), 4, self.remap[(self.ft % 2) + 1] if kind == 'another type' else self.remap[self.ft])
            Xc.put(q + fo(t, 'explicitTypeCount'), 4, self.ne if kind != 'other explicit types' or self.ne else 1)
            Xc.put(Ptr('v:exFunctionExplicitTypeArrayOffsets', 5 * 4), 4, 3)
            Xc.put(Ptr('v:exFunctionExplicitTypes', 3 * 4), 4, self.remap[0] if kind == 'other explicit types' else self.remap[1])
            Xc.st.ghost['maps'] = (('funcs', 0x9999, 5),)
        self.same = kind in ('generic instance', 'generic base')

    def expect(self, Xc, E0):
        t = 'ExternFuncInfo'
        E = Xc.E
        p = self.rec('funcs', 0)
        rd = lambda f, n=4: E.rd(E0, p + fo(t, f), n)
        rm = lambda i: M(32) if i is None else self.remap[i]
        self.exp['exFunctionExplicitTypeArrayOffsets'] = [(None, {0: (4, self.old['exFunctionExplicitTypes'])})]
        self.exp['exFunctionExplicitTypes'] = [(None, {0: (4, self.remap[1])})] * self.ne
        if self.same:
            self.exp['exFunctions'] = [(Ptr('v:exFunctions', 5 * es(t)), {})]
            return
        over = {fo(t, 'offsetToName'): (4, simp(add(self.old['exSymbols'], 12, 32))), fo(t, 'offsetToFirstLocal'): (4, simp(add(rd('offsetToFirstLocal'), self.old['exLocals'], 32))),
                fo(t, 'funcType'): (4, self.remap[self.ft]), fo(t, 'parentType'): (4, rm(self.pt[0])), fo(t, 'contextType'): (4, rm(self.pt[1]))}
        moved = simp(add(self.addr, self.old['exRegVmCode'], 32))
        if self.kind == 'host':
            over[fo(t, 'regVmAddress')] = (4, M(32))
        else:
            own = ne(self.addr, M(32), 32)
            over[fo(t, 'regVmAddress')] = (4, simp(ite(own, moved, M(32), 32)))
        if self.proto:
            over[fo(t, 'regVmCodeSize')] = (4, 0)
        self.moved = moved
        self.exp['exFunctions'] = [(p, over)]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        if self.kind in ('defined again', 'host without implementation'):
            yield 'linking fails', eq(b2i(ret, 8), 0, 8)
            yield 'the error is described', any(e[0] == 'print' and e[1] == 'linker' for e in F.events)
            yield 'import depth is balanced', eq(E.rd(F, Ptr('linker', lo('debugOutputIndent')), 4), E.rd(E0, Ptr('linker', lo('debugOutputIndent')), 4), 32)
            return
        if self.kind not in ('host',) and not self.same:
            # entry of a function of the module
            p, c, mx = self.at(Xc, F, 'regVmJumpTargets')
            n = self.old['regVmJumpTargets']
            self.jt = E.icmp
            grown = eq(c, n + 1, 32)
            self.E0 = E0
            own = ne(self.addr, M(32), 32)
            yield 'the entry of the function is a jump target', Iff(grown, own)
            yield 'the entry of the function is a jump target (address)', Implies(own, eq(E.rd(F, Ptr(p.base, n * 4), 4), add(self.addr, self.old['exRegVmCode'], 32), 32))
        for nm, c in Link.post(self, Xc, E0, F, ret):
            if nm.startswith('regVmJumpTargets: number') and not self.same and self.kind != 'host':
                continue
            yield nm, c
        p, c, mx = self.at(Xc, F, 'funcRemap')
        yield 'functions are renumbered', eq(c, self.modfuncs + self.funcs, 32)
        for i in range(self.modfuncs + self.funcs):
            want = self.func(Xc, self.target if self.proto and i >= self.modfuncs else i)
            yield 'functions are renumbered', eq(E.rd(F, Ptr(p.base, 4 * i), 4), want, 32)
        ms = [e for e in F.ghost.get('maps', ()) if e[0] == 'funcs']
        yield 'the function can be found by name', len(ms) > 0 and And(eq(ms[-1][1], 0x9999, 32), eq(ms[-1][2], self.old['exFunctions'], 32))


class Sequence(Link):
    """three instructions, two of them with argument lists"""
    name = 'LinkCode: several instructions'
    code = 3
    light = True
    types = 3
    L1, L2 = 2, 10
    consts = 2 + 8 + 7

    def extra(self, Xc):
        k = K()
        R = 'RegVmCmd'
        i = [self.rec('code', j) for j in range(3)]
        Xc.put(i[0] + fo(R, 'code'), 1, k['rviStoreLong'])
        Xc.put(i[0] + fo(R, 'rC'), 1, k['rvrrGlobals'])
        self.arg = self.fld(Xc, i[0], R, 'argument')
        Xc.put(i[1] + fo(R, 'code'), 1, k['rviCallPtr'])
        Xc.put(i[1] + fo(R, 'argument'), 4, self.L1)
        Xc.put(i[2] + fo(R, 'code'), 1, k['rviReturn'])
        Xc.put(i[2] + fo(R, 'argument'), 4, self.L2)
        words = [k['rvmiPushMem'], k['rvrrGlobals'], None, None, k['rvmiCall'], None, None, k['rvmiReturn'], 2, None, k['rvmiPushMem'], k['rvrrGlobals'], None, None, k['rvmiReturn']]
        for j, v in enumerate(words):
            if v is not None:
                Xc.put(self.rec('consts', self.L1 + j), 4, v)
        self.mems = [self.L1 + 2, self.L2 + 4]
        for j in self.mems:
            Xc.assume(ule(lshr(Xc.E.rd(Xc.st, self.rec('consts', j), 4), 24, 32), self.deps, 32))
        Xc.assume(ule(lshr(self.arg, 24, 32), self.deps, 32))

    def expect(self, Xc, E0):
        o = fo('RegVmCmd', 'argument')
        lists = [simp(add(self.old['exRegVmConstants'], l, 32)) for l in (self.L1, self.L2)]
        self.exp['exRegVmCode'] = [(self.rec('code', j), {o: (4, v)}) for j, v in enumerate([self.var(Xc, self.arg)] + lists)]
        self.exp['exRegVmExecCount'] = [(None, {0: (4, 0)})] * 3
        cs = [(self.rec('consts', j), {}) for j in range(self.consts)]
        for j in self.mems:
            cs[j][1][0] = (4, self.var(Xc, Xc.E.rd(E0, self.rec('consts', j), 4)))
        cs[self.L2][1][0] = (4, self.remap[2])
        self.exp['exRegVmConstants'] = cs


class TypeChain(Link):
    """new types that refer to each other"""
    name = 'LinkCode: new types that refer to each other'
    types = 4
    remaps = {0: 2, 1: 3, 2: 4, 3: 5}
    unknown = (1, 2, 3)
    sym = ('exSymbols',)

    def extra(self, Xc):
        k = K()
        t = 'ExternTypeInfo'
        self.members = {1: [2, 3], 3: [1, 0, 2]}
        for i in (1, 2, 3):
            p = self.rec('types', i)
            put = lambda f, v, n=4: Xc.put(p + fo(t, f), n, v)
            put('nameHash', 0x7770 + i)
            put('subCat', k['ExternTypeInfo::CAT_%s' % ('ARRAY' if i == 2 else 'CLASS')])
            put('baseType', {1: 3, 2: 0, 3: 0}[i])
            if i == 2:
                put('subType', 1)
                continue
            n, q = (2, 0) if i == 1 else (1, 2)
            put('memberCount', n)
            put('pointerCount', q, 2)
            put('memberOffset', 2 if i == 1 else 4)
            put('constantCount', 1)
            put('constantOffset', i)
        for j, m in enumerate(self.members[1] + self.members[3]):
            Xc.put(self.rec('members', 2 + j) + fo('ExternMemberInfo', 'type'), 4, m)
        for j, m in ((1, 3), (3, 0)):
            Xc.put(self.rec('tconsts', j) + fo('ExternConstantInfo', 'type'), 4, m)

    def expect(self, Xc, E0):
        t = 'ExternTypeInfo'
        rd = lambda i, f, n=4: Xc.E.rd(E0, self.rec('types', i) + fo(t, f), n)
        name = lambda i: {fo(t, 'offsetToName'): (4, simp(add(rd(i, 'offsetToName'), self.old['exSymbols'], 32)))}
        base = lambda v: {fo(t, 'baseType'): (4, v)}
        tab = lambda m, c: {fo(t, 'memberOffset'): (4, self.old['exTypeExtra'] + m), fo(t, 'constantOffset'): (4, self.old['exTypeConstants'] + c)}
        self.exp['exTypes'] = [(self.rec('types', 1), {**name(1), **base(5), **tab(0, 0)}), (self.rec('types', 2), {**name(2), **base(0), fo(t, 'subType'): (4, 3)}), (self.rec('types', 3), {**name(3), **base(0), **tab(2, 1)})]
        self.exp['exTypeExtra'] = [(self.rec('members', 2 + j), {fo('ExternMemberInfo', 'type'): (4, self.remap[m])}) for j, m in enumerate(self.members[1] + self.members[3])]
        self.exp['exTypeConstants'] = [(self.rec('tconsts', j), {fo('ExternConstantInfo', 'type'): (4, self.remap[m])}) for j, m in ((1, 3), (3, 0))]


class TwoFuncs(Link):
    """two functions of the same name and type"""
    sym = ('exRegVmCode',)
    types = 3
    funcs = 2
    explicit = 3
    ne = (2, 1)
    et = (1, 2, 0)

    def __init__(self, dup):
        self.dup = dup
        self.name = 'LinkCode: %s' % ('instances of a generic function, the first one known' if dup else 'functions of one name')

    def extra(self, Xc):
        E = Xc.E
        t = 'ExternFuncInfo'
        Xc.put(Ptr('g::' + GLOB, 0), 8, NULL)
        self.addr = []
        for i in range(2):
            p = self.rec('funcs', i)
            put = lambda f, v, n=4: Xc.put(p + fo(t, f), n, v)
            put('nameHash', 0x9999)
            put('offsetToName', 12)
            put('funcType', 1)
            put('parentType', M(32) if i else 2)
            put('contextType', M(32) if not i else 0)
            put('explicitTypeCount', self.ne[i])
            put('isVisible', 1)
            put('isGenericInstance', 1 if self.dup else 0, 1)
            put('regVmCodeSize', 5)
            a = self.fld(Xc, p, t, 'regVmAddress')
            Xc.assume(And(ne(a, 0, 32), ult(a, 1 << 24, 32)))
            self.addr.append(a)
        for j in range(3):
            Xc.put(self.rec('vars', self.vars + j) + fo('ExternVarInfo', 'type'), 4, self.et[j])
        Xc.put(Ptr('bc', self.tab['symbols'] + 12), 1, ord('f'))
        if self.dup:
            q = Ptr('v:exFunctions', 5 * es(t))
            Xc.put(q + fo(t, 'nameHash'), 4, 0x9999)
            Xc.put(q + fo(t, 'funcType'), 4, self.remap[1])
            Xc.put(q + fo(t, 'explicitTypeCount'), 4, 2)
            Xc.put(Ptr('v:exFunctionExplicitTypeArrayOffsets', 5 * 4), 4, 3)
            Xc.put(Ptr('v:exFunctionExplicitTypes', 3 * 4), 4, self.remap[1])
            Xc.put(Ptr('v:exFunctionExplicitTypes', 4 * 4), 4, self.remap[2])
            Xc.st.ghost['maps'] = (('funcs', 0x9999, 5),)

    def expect(self, Xc, E0):
        t = 'ExternFuncInfo'
        E = Xc.E
        ne_ = self.old['exFunctionExplicitTypes']
        self.exp['exFunctionExplicitTypeArrayOffsets'] = [(None, {0: (4, ne_ + i)}) for i in (0, 2)]
        self.exp['exFunctionExplicitTypes'] = [(None, {0: (4, self.remap[x])}) for x in self.et]
        out, jumps = [], []
        for i in range(2):
            p = self.rec('funcs', i)
            rd = lambda f, n=4: E.rd(E0, p + fo(t, f), n)
            if i == 0 and self.dup:
                out.append((Ptr('v:exFunctions', 5 * es(t)), {}))
                continue
            at = simp(add(self.addr[i], self.old['exRegVmCode'], 32))
            out.append((p, {fo(t, 'offsetToName'): (4, self.old['exSymbols'] + 12), fo(t, 'offsetToFirstLocal'): (4, simp(add(rd('offsetToFirstLocal'), self.old['exLocals'], 32))),
                            fo(t, 'funcType'): (4, self.remap[1]), fo(t, 'parentType'): (4, M(32) if i else self.remap[2]), fo(t, 'contextType'): (4, M(32) if not i else self.remap[0]),
                            fo(t, 'regVmAddress'): (4, at)}))
            jumps.append((None, {0: (4, at)}))
        self.exp['exFunctions'] = out
        self.exp['regVmJumpTargets'] = jumps

    def post(self, Xc, E0, F, ret):
        yield from Link.post(self, Xc, E0, F, ret)
        E = Xc.E
        p, c, mx = self.at(Xc, F, 'funcRemap')
        yield 'functions are renumbered', eq(c, self.modfuncs + 2, 32)
        for i in range(self.modfuncs + 2):
            yield 'functions are renumbered', eq(E.rd(F, Ptr(p.base, 4 * i), 4), self.func(Xc, i), 32)


class Import(Link):
    """an import that is not part of the program yet is linked first"""
    sym = ('exSource', 'exRegVmCode')
    code = 1
    consts = 1

    def __init__(self, kind):
        self.kind = kind
        self.name = 'LinkCode: import, %s' % kind

    def extra(self, Xc):
        k = K()
        p = self.rec('code', 0)
        self.arg = self.fld(Xc, p, 'RegVmCmd', 'argument')
        Xc.put(p + fo('RegVmCmd', 'code'), 1, k['rviLoadDword'])
        Xc.put(p + fo('RegVmCmd', 'rC'), 1, k['rvrrGlobals'])
        Xc.assume(ule(lshr(self.arg, 24, 32), 1, 32))
        mt = 'ExternModuleInfo'
        q = Ptr('v:exModules', es(mt))
        Xc.put(q + fo(mt, 'nameHash'), 4, 0x3001)
        # the imported module
        Xc.obj('bc2', k['sizeof(ByteCode)'] + 64)
        for f in BC:
            Xc.put(Ptr('bc2', k['OFF(ByteCode,%s)' % f]), 4, k['sizeof(ByteCode)'] if f.lower().find('offset') >= 0 else 0)
        Xc.put(Ptr('bc2', k['OFF(ByteCode,symbolLength)']), 4, 4)
        self.g2, self.s2 = Xc.int('import.globalVarSize', 32), Xc.choice('import.sourceSize', [0, 3])
        Xc.assume(ule(self.g2, 1 << 20, 32))
        Xc.put(Ptr('bc2', k['OFF(ByteCode,globalVarSize)']), 4, self.g2)
        Xc.put(Ptr('bc2', k['OFF(ByteCode,sourceSize)']), 4, self.s2)
        Xc.put(self.rec('modules', 0) + fo(mt, 'funcCount'), 4, 0)
        for f in ('moduleFunctionCount', 'functionCount'):
            self.bcput(Xc, f, 0)
        Xc.put(Ptr('bc', self.tab['symbols']), 4, int.from_bytes(b'm.n\0', 'little'))

    def bytecode(self, E, st, p):
        return Ptr('bc2', 0) if self.kind == 'available' else NULL

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        mt = 'ExternModuleInfo'
        if self.kind != 'available':
            yield 'linking fails', eq(b2i(ret, 8), 0, 8)
            yield 'the error is described', any(e[0] == 'print' and e[1] == 'linker' for e in F.events)
            yield 'import depth is balanced', eq(E.rd(F, Ptr('linker', lo('debugOutputIndent')), 4), E.rd(E0, Ptr('linker', lo('debugOutputIndent')), 4), 32)
            return
        yield 'linking succeeds', eq(b2i(ret, 8), 1, 8)
        yield 'the import was requested', any(e == ('findbytecode', 'bc', self.tab['symbols']) for e in F.events)
        p, c, mx = self.at(Xc, F, 'exModules')
        yield 'the import joins the program', eq(c, self.NM + 1, 32)
        src = self.rec('modules', 0)
        no = E.rd(E0, src + fo(mt, 'nameOffset'), 4)
        over = {fo(mt, 'nameHash'): (4, 0x2000), fo(mt, 'nameOffset'): (4, simp(add(no, self.old['exSymbols'] + 4, 32))), fo(mt, 'funcStart'): (4, self.old['exFunctions']),
                fo(mt, 'variableOffset'): (4, self.gvs), fo(mt, 'sourceOffset'): (4, self.old['exSource']), fo(mt, 'sourceSize'): (4, self.s2)}
        for lab, g in self.record(Xc, E0, F, Ptr(p.base, self.NM * es(mt)), src, over, es(mt)):
            yield 'description of the import' + lab, g
        yield 'size of the global variables', eq(E.rd(F, Ptr('linker', lo('globalVarSize')), 4), simp(add(add(self.gvs, self.g2, 32), self.bgs, 32)), 32)
        p, c, mx = self.at(Xc, F, 'exSource')
        yield 'source text of both', eq(c, simp(add(self.old['exSource'], self.s2, 32)), 32)
        p, c, mx = self.at(Xc, F, 'moduleRemap')
        yield 'imports are renumbered', And(eq(c, 1, 32), eq(E.rd(F, Ptr(p.base, 0), 4), self.NM, 32))
        p, c, mx = self.at(Xc, F, 'exRegVmCode')
        yield 'code of both', eq(c, simp(add(self.old['exRegVmCode'], 1, 32)), 32)
        want = ite(eq(lshr(self.arg, 24, 32), 1, 32), add(and_(self.arg, 0xffffff, 32), self.gvs, 32), add(self.arg, add(self.gvs, self.g2, 32), 32), 32)
        q = Ptr(p.base, simp(mul(zext(self.old['exRegVmCode'], 32, 64), 8, 64)))
        yield 'variables of both are told apart', eq(E.rd(F, q + fo('RegVmCmd', 'argument'), 4), simp(want), 32)


def prepare():
    K()


def contracts():
    out = [Instr(MEMORY, 'operations with a memory operand'), Instr(PLAIN, 'operations on registers'), Instr(JUMPS, 'jumps')] + [Instr(o) for o in REFS]
    pu = ['Push', 'PushQword', 'PushImm', 'PushImmq', 'PushMem']
    po = ['Pop', 'Popq', 'PopMem']
    for op in ('Call', 'CallPtr'):
        out.append(Micro(op, ()))
    out += [Micro('CallPtr', (a,)) for a in pu] + [Micro('CallPtr', (), (a,)) for a in po]
    out += [Micro(op, (a, 'PushMem'), (b, 'PopMem')) for op in ('Call', 'CallPtr') for a, b in (('Push', 'Popq'),)]
    out.append(Micro('CallPtr', ('PushMem', 'PushMem'), ('PopMem', 'PopMem')))
    out += [Micro('CallPtr', (a, 'PushMem'), ('Pop', 'PopMem')) for a in pu[1:4]]
    out.append(Micro('Return', ()))
    out += [Tables('exSymbols', 1, 2), Tables('exVariables', 1, 1), Tables('exSource', 1, 1), Tables('', 2, 1), Full()] + [Types(x) for x in ('plain', 'array', 'pointer', 'function', 'class', 'completed', 'mismatch')]
    out += [Funcs(x) for x in ('of the module', 'prototype', 'host', 'host without implementation', 'generic instance', 'generic base', 'defined again', 'another type', 'other explicit types',
                               'internal name', 'not visible')]
    out += [Sequence(), TypeChain(), TwoFuncs(False), TwoFuncs(True)]
    out += [Import(x) for x in ('available', 'missing')]
    out += [Micro('Return', (a,)) for a in pu] + [Micro('Return', (a, 'PushMem')) for a in pu]
    heavy = lambda c: 'prototype' in c.name or 'grow' in c.name or c.name.count('Mem') > 1 or 'Symbols' in c.name
    return [c for c in out if heavy(c)] + [c for c in out if not heavy(c)]
