"""Lowering of SSA instructions to register instructions (InstructionTreeRegVmLower.cpp).

The instructions emitted for one SSA instruction are given their meaning (the one the contracts of
the interpreter establish, interp.py), executed over an arbitrary register file, and must compute the
value or have the effect of the SSA instruction, for every constant, operand placement and register
state, without disturbing a register that is still needed."""
from .common import *
from . import vmgraph
from .vmgraph import *

TU = 'InstructionTreeRegVmLower.cpp'
TUS = [TU, 'InstructionTreeVm.cpp', 'InstructionTreeVmCommon.cpp', SHIM]
STUBS = {'vc_alloc': alloc_stub, 'vc_dealloc': dealloc_stub}
IR_INIT = '_GLOBAL__sub_I_InstructionTreeVm.cpp'
RVI = '''Nop LoadByte LoadWord LoadDword LoadLong LoadFloat LoadDouble LoadImm StoreByte StoreWord StoreDword StoreLong StoreFloat StoreDouble Combinedd Breakupdd Mov MovMult Dtoi Dtol
Dtof Itod Ltod Itol Ltoi Index GetAddr SetRange MemCopy Jmp Jmpz Jmpnz Call CallPtr Return AddImm Add Sub Mul Div Pow Mod Less Greater Lequal Gequal Equal Nequal Shl Shr BitAnd BitOr BitXor
AddImml Addl Subl Mull Divl Powl Modl Lessl Greaterl Lequall Gequall Equall Nequall Shll Shrl BitAndl BitOrl BitXorl Addd Subd Muld Divd Addf Subf Mulf Divf Powd Modd Lessd Greaterd Lequald
Gequald Equald Nequald Neg Negl Negd BitNot BitNotl LogNot LogNotl ConvertPtr FuncAddr Typeid'''.split()
MIC = ['Call', 'Push', 'PushQword', 'PushImm', 'PushImmq', 'PushMem', 'Return', 'Pop', 'Popq', 'PopMem']
LF = dict(RegVmLoweredInstruction=['code', 'rA', 'rB', 'rC', 'argument', 'parent', 'nextSibling', 'prevSibling', 'preKillRegisters', 'postKillRegisters'],
          RegVmLoweredBlock=['parent', 'vmBlock', 'firstInstruction', 'lastInstruction', 'entryRegisters'],
          RegVmLoweredFunction=['parent', 'vmFunction', 'registerUsers', 'nextRegister', 'delayedFreedRegisters', 'freedRegisters', 'constantRegisters', 'killedRegisters', 'colorRegisters',
                                'hasRegisterOverflow'],
          RegVmLoweredModule=['allocator', 'constants'],
          VmBlock=['prevSibling', 'nextSibling'],
          FunctionData=['functionIndex'], VmConstant=['fValue', 'bValue'],
          VariableData=['importModule', 'offset', 'scope'], ModuleData=['importIndex'], ScopeData=['type', 'ownerFunction', 'ownerType', 'scope'],
          TypeBase=['typeIndex', 'size'])
LLISTS = ('preKillRegisters', 'postKillRegisters', 'entryRegisters', 'delayedFreedRegisters', 'freedRegisters', 'constantRegisters', 'killedRegisters', 'colorRegisters', 'constants')
XT = dict(funcref=('FUNCTION_REF', 12), arrayref=('ARRAY_REF', 12), autoref=('AUTO_REF', 12), autoarray=('AUTO_ARRAY', 16))
SADATA, SACOUNT = 0, 8      # checked in LK
NEXT = 60        # first register the function has not used yet
LIVE = 30        # an unrelated value is kept in this register
_lk = None


def LK():
    global _lk
    if _lk is None:
        ex = ['rvi' + o for o in RVI] + ['rvmi' + o for o in MIC] + ['rvr' + o for o in ('Void', 'Double', 'Long', 'Int', 'Struct', 'Error')]
        ex += ['rvsr' + o for o in ('Double', 'Float', 'Long', 'Int', 'Short', 'Char')] + ['rvc' + o for o in ('Full', 'Int', 'Double', 'Long')]
        ex += ['VM_TYPE_' + a for a, _ in XT.values()] + ['VM_INST_UNYIELD', 'VM_INST_ABORT_NO_RETURN']
        for s, fs in LF.items():
            ex.append('sizeof(%s)' % s)
            ex += ['OFF(%s,%s)' % (s, f) for f in fs] + ['OFF(%s,%s.%s)' % (s, f, g) for f in fs if f in LLISTS for g in SA]
        _lk = build.probe(['stdafx.h', 'InstructionTreeVm.h', 'ExpressionTree.h', 'TypeTree.h', 'InstructionTreeRegVmLower.h'], ex)
        for s, fs in LF.items():
            for f in fs:
                if f in LLISTS and (_lk['OFF(%s,%s.data)' % (s, f)] - _lk['OFF(%s,%s)' % (s, f)], _lk['OFF(%s,%s.count)' % (s, f)] - _lk['OFF(%s,%s)' % (s, f)]) != (SADATA, SACOUNT):
                    raise Unsupported('layout of a list')
    return _lk


def lo(s, f):
    return LK()['OFF(%s,%s)' % (s, f)]


def layout(t, size=None):
    """register parts (bytes) of a value of the type"""
    if t in (INT,):
        return [4]
    if t in (LONG, DOUBLE, PTR_):
        return [8]
    if t in ('funcref', 'arrayref'):
        return [8, 4]
    if t == 'autoref':
        return [4, 8]
    if t == 'autoarray':
        return [4, 8, 4]
    if t == VOID:
        return []
    return [8] * (size // 8) + ([4] if size % 8 else [])


def words(parts):
    """a value of several parts as 32-bit words"""
    out = []
    for n, v in parts:
        out += [v] if n == 4 else [trunc(v, 64, 32), extract(v, 63, 32)]
    return out


def unwords(ws, lay):
    out = []
    for n in lay:
        out.append((n, ws[0] if n == 4 else or_(shl(zext(ws[1], 32, 64), 32, 64), zext(ws[0], 32, 64), 64)))
        ws = ws[n // 4:]
    return out


class LGraph(Graph):
    """an SSA graph placed in the register allocation state of a function"""

    def __init__(self, Xc, contract, freed, pad):
        super().__init__(Xc, contract)
        k = LK()
        self.regs = {}        # value name -> registers
        self.kind = {}        # value name -> (type, size)
        self.freed = freed
        self.users = {r: 1 for r in range(4, NEXT) if r not in freed}
        self.live = {0, 1, 2, 3, LIVE}
        self.reg0 = {}
        self.nlow = []
        for n in ('scopeL', 'scopeG'):
            Xc.obj(n, k['sizeof(ScopeData)'], ('zero',))
            Xc.align[n] = 16
        Xc.obj('ownerfn', 64, ('zero',))
        Xc.put(Ptr('scopeL', 0) + lo('ScopeData', 'ownerFunction'), 8, Ptr('ownerfn', 0))
        self.lm = Xc.obj('lm', k['sizeof(RegVmLoweredModule)'], ('zero',))
        self.lf = Xc.obj('lf', k['sizeof(RegVmLoweredFunction)'], ('zero',))
        self.lb = Xc.obj('lb', k['sizeof(RegVmLoweredBlock)'], ('zero',))
        for n in ('lm', 'lf', 'lb'):
            Xc.align[n] = 16
        self.consts0 = [Xc.int('table%d' % i, 32) for i in range(2 + pad)]
        Xc.put(self.lm + lo('RegVmLoweredModule', 'allocator'), 8, self.alloc)
        self.small(self.lm, 'RegVmLoweredModule', 'constants', 'lm.constants', self.consts0, 256, esz=4, fld=lo)
        Xc.put(self.lf + lo('RegVmLoweredFunction', 'parent'), 8, self.lm)
        Xc.put(self.lf + lo('RegVmLoweredFunction', 'nextRegister'), 1, NEXT)
        for f in ('delayedFreedRegisters', 'constantRegisters', 'killedRegisters'):
            self.small(self.lf, 'RegVmLoweredFunction', f, 'lf.' + f, [], 64, esz=1, fld=lo)
        self.small(self.lf, 'RegVmLoweredFunction', 'freedRegisters', 'lf.freed', freed, 64, esz=1, fld=lo)
        Xc.put(self.lb + lo('RegVmLoweredBlock', 'parent'), 8, self.lf)

    def reg(self, r):
        if r not in self.reg0:
            self.reg0[r] = self.Xc.int('reg%d' % r, 64)
        return self.reg0[r]

    def vtype(self, t, size=None, ty=None):
        if t in XT:
            return LK()['VM_TYPE_' + XT[t][0]], XT[t][1]
        return super().vtype(t, size, ty)

    def value(self, name, cls, t, node, size=None):
        p = super().value(name, cls, t, node, size)
        self.kind[name] = (t, size if t == STRUCT else self.vtype(t, size)[1])
        if t in XT:
            self.Xc.put(p + fld('VmValue', 'type') + fld('VmType', 'structType'), 8, self.tref)
        if cls == 'VmInstruction':
            self.small(p, 'VmInstruction', 'regVmRegisters', name + '.regs', [], 64, esz=1)
        return p

    def container(self, name, local=True):
        Xc = self.Xc
        super().container(name)
        p = Ptr(name, 0)
        self.small(p, 'VariableData', 'regVmUsers', name + '.rusers', [])
        off = zext(Xc.int(name + '.offset', 22), 22, 32)
        Xc.put(p + lo('VariableData', 'offset'), 4, off)
        Xc.put(p + lo('VariableData', 'scope'), 8, Ptr('scopeL' if local else 'scopeG', 0))
        self.cont = getattr(self, 'cont', {})
        self.cont[name] = (local, off)
        return name

    def place(self, name, regs, count=True):
        """the value lives in these registers"""
        self.regs[name] = regs
        p = Ptr(name, 0)
        self.Xc.put(p + fld('VmInstruction', 'regVmRegisters.count'), 4, len(regs))
        for i, r in enumerate(regs):
            self.Xc.put(Ptr(name + '.regs', i), 1, r)
        return name

    def vfunction(self, name):
        Xc = self.Xc
        p = self.value(name, 'VmFunction', 'funcref', 'VmFunction')
        Xc.obj(name + '.data', LK()['sizeof(FunctionData)'], ('zero',))
        Xc.align[name + '.data'] = 16
        i = Xc.int(name + '.index', 32)
        self.kind[name] = (INT, 4)
        self.terms[name] = i
        Xc.put(Ptr(name + '.data', 0) + lo('FunctionData', 'functionIndex'), 4, i)
        Xc.put(p + fld('VmFunction', 'function'), 8, Ptr(name + '.data', 0))
        return name

    def lowered(self, name, code, a, b, c, arg=None):
        """an instruction already in the block"""
        Xc, k = self.Xc, LK()
        p = Xc.obj(name, k['sizeof(RegVmLoweredInstruction)'], ('zero',))
        Xc.align[name] = 16
        s = 'RegVmLoweredInstruction'
        Xc.put(p + lo(s, 'code'), 4, k['rvi' + code])
        for f, v in (('rA', a), ('rB', b), ('rC', c)):
            Xc.put(p + lo(s, f), 1, v)
        if arg is not None:
            self.const(name + '.arg', INT, arg)
            Xc.put(p + lo(s, 'argument'), 8, Ptr(name + '.arg', 0))
        for f in ('preKillRegisters', 'postKillRegisters'):
            self.small(p, s, f, name + '.' + f, [], 64, esz=1, fld=lo)
        Xc.put(p + lo(s, 'parent'), 8, self.lb)
        Xc.put(self.lb + lo('RegVmLoweredBlock', 'firstInstruction'), 8, p)
        Xc.put(self.lb + lo('RegVmLoweredBlock', 'lastInstruction'), 8, p)
        self.first = name
        return name


class LEv(Ev):
    """meaning, with values of several registers"""

    def __init__(self, Xc, g, S):
        super().__init__(Xc, g, S)
        for t, (a, _) in XT.items():
            self.tname[LK()['VM_TYPE_' + a]] = t
        self.oname[LK()['VM_INST_UNYIELD']] = 'UNYIELD'
        self.oname[LK()['VM_INST_ABORT_NO_RETURN']] = 'ABORT_NO_RETURN'

    def caddr(self, name):
        local, off = self.g.cont[name]
        return add(self.g.reg(1 if local else 0), zext(off, 32, 64), 64)

    def parts(self, p):
        """[(bytes, term)]"""
        t = self.type(p)
        n = p.base
        if n in self.g.regs and n != 'X':
            return [(b, self.g.reg(r) if b == 8 else trunc(self.g.reg(r), 64, 32)) for r, b in zip(self.g.regs[n], layout(*self.g.kind[n]))]
        if n in self.g.terms and n.startswith('F'):
            return [(4, self.g.terms[n])]
        if self.isconst(p):
            if t == STRUCT or self.conc(self.rd(p, 'VmConstant', 'isReference', 1)):
                size = self.tsize(p)
                if self.conc(self.rd(p, 'VmConstant', 'isReference', 1)):
                    c = self.E.pp(self.rd(p, 'VmConstant', 'container', 8))
                    a = add(self.caddr(c.base), sext(self.rd(p, 'VmConstant', 'iValue', 4), 32, 64), 64)
                    return [(4, self.mem(4, add(a, 4 * i, 64))) for i in range(size // 4)]
                s = self.ptr(self.rd(p, 'VmConstant', 'sValue', 8))
                lay = layout(STRUCT, size)
                return [(b, self.E.rd(self.S, s + sum(lay[:i]), b)) for i, b in enumerate(lay)]
            return [(W[t] // 8, self.const(p)[1])]
        c, A = self.cmd(p), self.args(p)
        size = self.tsize(p)
        lay = layout(t, size)
        if c == 'LOAD_STRUCT':
            a = self.address(A[0], A[1])
            return [(b, self.mem(b, add(a, sum(lay[:i]), 64))) for i, b in enumerate(lay)]
        if c == 'CONSTRUCT':
            return [x for a in A for x in self.parts(a)]
        if c == 'BITCAST':
            return unwords(words(self.parts(A[0])), lay)
        return [(W[t] // 8, self.op(p))]

    def value(self, p):
        nd = self.node(p)
        if nd == self.k['VmValueNode::VmBlock']:
            return BLOCK, self.E.p2i(p)
        t = self.type(p)
        ps = self.parts(p)
        if len(ps) != 1:
            raise Unsupported('value of %d parts' % len(ps))
        return (INT if nd == self.k['VmValueNode::VmFunction'] else t), ps[0][1]

    def mem(self, n, a):
        return self.uf('mem%d' % n, [64], 8 * n, [simp(a)])

    def op(self, p):
        c, A = self.cmd(p), self.args(p)
        if c == 'INDEX_UNSIZED':
            es, (b, ln), ix = self.num(A[0], INT), [x for _, x in self.parts(A[1])], self.num(A[2], INT)
            self.trap(Not(ult(ix, ln, 32)))
            return add(b, mul(zext(es, 32, 64), zext(ix, 32, 64), 64), 64)
        if c == 'CONVERT_POINTER':
            ty, v = [x for _, x in self.parts(A[0])]
            self.trap(ne(self.uf('cannot convert', [32, 32], 8, [ty, self.num(A[1], INT)]), 0, 8))
            return v
        if c == 'FUNCTION_ADDRESS':
            return self.num(A[0], INT)
        return super().op(p)

    def fp(self, op, a, b):
        r = fop(op, [a, b], 64)
        if op in ('fadd', 'fmul') and not isc(r):
            # addition and multiplication commute (up to the payload of a NaN)
            f, x, y = r.decl(), bv(a, 64), bv(b, 64)
            self.E.axioms.append(Or(eq(f(x, y), f(y, x), 64), And(funo64(f(x, y)), funo64(f(y, x)))))
        return r

    def binary(self, c, t, ta, a, b):
        if c in ('DIV', 'MOD') and t != DOUBLE:
            # lowering never evaluates a division: any function of the operands will do
            w = W[t]
            self.trap(Or(eq(b, 0, w), And(eq(a, 1 << (w - 1), w), eq(b, M(w), w))))
            return self.uf('%s%d' % (c, w), [w, w], w, [a, b])
        return super().binary(c, t, ta, a, b)


class Machine:
    """execution of lowered instructions over a register file"""

    def __init__(self, Xc, g, S):
        self.Xc, self.g, self.S, self.E = Xc, g, S, Xc.E
        self.ev = LEv(Xc, g, S)
        self.r = {}
        self.effects = []      # (condition under which it is reached, effect)
        self.reach = True      # condition for execution to get here
        self.traps = []
        self.junk = 0
        self.names = {LK()['rvi' + o]: o for o in RVI}
        self.consts = self.table()

    def table(self):
        n = self.conc(self.E.rd(self.S, self.g.lm + lo('RegVmLoweredModule', 'constants.count'), 4))
        d = self.E.pp(self.E.rd(self.S, self.g.lm + lo('RegVmLoweredModule', 'constants.data'), 8))
        return [self.E.rd(self.S, d + 4 * i, 4) for i in range(n)]

    def conc(self, v):
        if not isc(v):
            raise Unsupported('symbolic register assignment')
        return v

    def bytes(self, p):
        n = self.conc(self.E.rd(self.S, p + SACOUNT, 4))
        if n == 0:
            return []
        d = self.E.pp(self.E.rd(self.S, p + SADATA, 8))
        return [self.conc(self.E.rd(self.S, d + i, 1)) for i in range(n)]

    def get(self, r):
        if r not in self.r:
            self.r[r] = self.g.reg(r)
        return self.r[r]

    def get32(self, r):
        return trunc(self.get(r), 64, 32)

    def fresh(self, w=64):
        self.junk += 1
        if self.Xc.concrete:
            return 0xdeadbeefcafef00d & M(w)
        return z3.BitVec('junk%d' % self.junk, w)

    def early(self):
        for r in self.kills:
            self.r[r] = self.fresh()
        self.kills = []

    def set(self, r, v):
        self.early()
        if r < 4:
            raise BadCode('a base register is overwritten')
        self.r[r] = v

    def set32(self, r, v):
        """the upper half is not defined by an instruction that produces 32 bits"""
        self.set(r, or_(shl(zext(self.fresh(32), 32, 64), 32, 64), zext(v, 32, 64), 64))

    def arg(self, a):
        """('int', v) ('block', name) ('fn', name)"""
        E, S = self.E, self.S
        a = E.pp(a)
        if a.base is None:
            return 'int', 0
        c = E.pp(E.rd(S, a + fld('VmConstant', 'container'), 8))
        if c.base is not None:
            return 'int', add(E.rd(S, a + fld('VmConstant', 'iValue'), 4), E.rd(S, c + lo('VariableData', 'offset'), 4), 32)
        f = E.pp(E.rd(S, a + lo('VmConstant', 'fValue'), 8))
        if f.base is not None:
            return 'fn', f.base
        b = E.pp(E.rd(S, a + lo('VmConstant', 'bValue'), 8))
        if b.base is not None:
            return 'block', b.base
        return 'int', E.rd(S, a + fld('VmConstant', 'iValue'), 4)

    def load(self, base, arg, n):
        """memory operand"""
        if base == 2:
            i = self.conc(arg)
            if i % 4 or i // 4 + n // 4 > len(self.consts) or n < 4:
                raise BadCode('outside of the constant table')
            ws = self.consts[i // 4:]
            return ws[0] if n == 4 else or_(shl(zext(ws[1], 32, 64), 32, 64), zext(ws[0], 32, 64), 64)
        if base == 3:
            i = self.conc(arg)
            if i % 8:
                raise BadCode('misaligned register operand')
            return self.get(i // 8) if n == 8 else trunc(self.get(i // 8), 64, 8 * n)
        return self.ev.mem(n, add(self.get(base), zext(arg, 32, 64), 64))

    def effect(self, *e):
        self.effects.append((self.reach, list(e)))

    def run(self):
        E, S = self.E, self.S
        s = 'RegVmLoweredInstruction'
        p = E.pp(E.rd(S, self.g.lb + lo('RegVmLoweredBlock', 'firstInstruction'), 8))
        n = 0
        while p.base is not None:
            n += 1
            if n > 64:
                raise BadCode('endless instruction list')
            code = self.names.get(self.conc(E.rd(S, p + lo(s, 'code'), 4)), '?')
            a, b, c = [self.conc(E.rd(S, p + lo(s, f), 1)) for f in ('rA', 'rB', 'rC')]
            # early kills: after the operands are read, before the result is written
            self.kills = self.bytes(p + lo(s, 'preKillRegisters'))
            self.step(code, a, b, c, *self.arg(E.rd(S, p + lo(s, 'argument'), 8)))
            self.early()
            for r in self.bytes(p + lo(s, 'postKillRegisters')):
                self.r[r] = self.fresh()
            last, p = p, E.pp(E.rd(S, p + lo(s, 'nextSibling'), 8))
        self.count = n

    def step(self, code, a, b, c, ak, v):
        get, set_, g32, s32 = self.get, self.set, self.get32, self.set32
        if ak == 'block' and code not in ('Jmp', 'Jmpz', 'Jmpnz') or ak == 'fn' and code not in ('Call', 'FuncAddr'):
            raise BadCode('argument of ' + code)
        if code in ('LoadByte', 'LoadWord', 'LoadDword'):
            n = {'LoadByte': 1, 'LoadWord': 2, 'LoadDword': 4}[code]
            m = self.load(c, v, n)
            s32(a, sext(m, 8 * n, 32) if n < 4 else m)
        elif code in ('LoadLong', 'LoadDouble'):
            set_(a, self.load(c, v, 8))
        elif code == 'LoadFloat':
            set_(a, fpext(self.load(c, v, 4)))
        elif code == 'LoadImm':
            s32(a, v)
        elif code in ('FuncAddr', 'Typeid'):
            s32(a, v)
        elif code.startswith('Store'):
            w = {'Byte': 8, 'Word': 16, 'Dword': 32, 'Long': 64, 'Float': 32, 'Double': 64}[code[5:]]
            x = get(a)
            x = fptrunc(x) if code == 'StoreFloat' else trunc(x, 64, w) if w < 64 else x
            self.effect('store', w, (add(get(c), zext(v, 32, 64), 64), 64, False), (x, w, code == 'StoreDouble'))
        elif code == 'Combinedd':
            set_(a, or_(shl(zext(g32(c), 32, 64), 32, 64), zext(g32(b), 32, 64), 64))
        elif code == 'Breakupdd':
            s32(a, extract(get(c), 63, 32))
            s32(b, g32(c))
        elif code == 'Mov':
            self.mov(a, c, b & 3)
        elif code == 'MovMult':
            self.conc(v)
            self.mov(a, c, b & 3)
            self.mov(v >> 24 & 255, v >> 16 & 255, b >> 2 & 3)
            self.mov(v >> 8 & 255, v & 255, b >> 4 & 3)
        elif code == 'Dtoi':
            s32(a, fptosi(get(c), 64, 32))
        elif code == 'Dtol':
            set_(a, fptosi(get(c), 64, 64))
        elif code == 'Dtof':
            s32(a, fptrunc(get(c)))
        elif code == 'Itod':
            set_(a, itofp(g32(c), 32, 64, True))
        elif code == 'Ltod':
            set_(a, itofp(get(c), 64, 64, True))
        elif code == 'Itol':
            set_(a, sext(g32(c), 32, 64))
        elif code == 'Ltoi':
            s32(a, g32(c))
        elif code == 'Index':
            n, es = g32(self.conc(simp(extract(v, 23, 16)) if not isc(v) else v >> 16 & 255)), simp(trunc(v, 32, 16)) if not isc(v) else v & 0xffff
            i = g32(b)
            self.traps.append(Not(ult(i, n, 32)))
            set_(a, add(get(c), mul(zext(i, 32, 64), zext(es, 16, 64), 64), 64))
        elif code == 'GetAddr':
            if c == 2:
                set_(a, ('table', self.conc(v)))
            else:
                set_(a, add(get(c), zext(v, 32, 64), 64))
        elif code == 'SetRange':
            k = {LK()['rvsr' + o]: o for o in ('Double', 'Float', 'Long', 'Int', 'Short', 'Char')}[b]
            w = {'Double': 64, 'Float': 32, 'Long': 64, 'Int': 32, 'Short': 16, 'Char': 8}[k]
            x = fptrunc(get(a)) if k == 'Float' else trunc(get(a), 64, w) if w < 64 else get(a)
            self.effect('setrange', w, (get(c), 64, False), (v, 32, False), (x, w, False))
        elif code == 'MemCopy':
            if isinstance(get(c), tuple):
                i, n = get(c)[1] // 4, self.conc(v)
                if n % 4 or i + n // 4 > len(self.consts):
                    raise BadCode('outside of the constant table')
                for j in range(n // 4):
                    self.effect('store', 32, (add(get(a), 4 * j, 64), 64, False), (self.consts[i + j], 32, False))
            else:
                self.effect('copy', (get(a), 64, False), (get(c), 64, False), (v, 32, False))
        elif code in ('Jmp', 'Jmpz', 'Jmpnz'):
            cond = True if code == 'Jmp' else eq(g32(c), 0, 32)
            if code == 'Jmpnz':
                cond = Not(cond)
            self.effects.append((And(self.reach, cond), ['jump', v]))
            self.reach = And(self.reach, Not(cond))
        elif code == 'ConvertPtr':
            self.traps.append(ne(self.ev.uf('cannot convert', [32, 32], 8, [g32(b), v]), 0, 8))
            set_(a, get(c))
        elif code in ('Call', 'CallPtr'):
            pos = (a << 16 | b << 8 | c) if code == 'Call' else self.conc(v)
            ws, pos = self.pushes(pos, 'Call')
            r, t = self.consts[pos], self.consts[pos + 1]
            self.effect('call', v if code == 'Call' else g32(c), ws)
            self.results(pos + 2, self.conc(r), self.conc(t))
        elif code == 'Return':
            pos = self.conc(v)
            ws, _ = self.pushes(pos + 2, 'Return')
            self.effect('return', b, c, self.consts[pos], self.consts[pos + 1], ws)
            self.reach = False
        elif code in ('AddImm', 'AddImml'):
            if code == 'AddImm':
                s32(a, add(g32(b), v, 32))
            else:
                set_(a, add(get(b), sext(v, 32, 64), 64))
        elif code in ('Neg', 'BitNot', 'LogNot'):
            s32(a, {'Neg': lambda x: sub(0, x, 32), 'BitNot': lambda x: xor(x, M(32), 32), 'LogNot': lambda x: b2i(eq(x, 0, 32), 32)}[code](g32(c)))
        elif code == 'Negl':
            set_(a, sub(0, get(c), 64))
        elif code == 'Negd':
            set_(a, xor(get(c), 1 << 63, 64))
        elif code == 'BitNotl':
            set_(a, xor(get(c), M(64), 64))
        elif code == 'LogNotl':
            s32(a, b2i(eq(get(c), 0, 64), 32))
        elif code in BIN:
            op, t = BIN[code]
            n = 4 if t in (INT, 'float') else 8
            m = self.load(c, v, n)
            if t == 'float':
                m, t = fpext(m), DOUBLE
            x = get(b) if t != INT else g32(b)
            res = INT if op in BINARY[11:] else t
            self.ev.traps = []
            y = self.ev.binary(op, res, t, x, m)
            self.traps += self.ev.traps
            (s32 if res == INT else set_)(a, y)
        else:
            raise BadCode('instruction ' + code)

    def mov(self, d, s, t):
        if d == s:
            return
        # a copy of an integer is free to leave the upper half alone
        if t == LK()['rvcInt']:
            self.set32(d, self.get32(s))
        else:
            self.set(d, self.get(s))

    def pushes(self, pos, end):
        k = LK()
        out = []
        C = self.consts
        for _ in range(64):
            if pos >= len(C):
                raise BadCode('microcode runs out of the table')
            o = self.conc(C[pos])
            if o == k['rvmi' + end]:
                return out, pos + 1
            if o == k['rvmiPush']:
                out.append(self.get32(self.conc(C[pos + 1])))
            elif o == k['rvmiPushQword']:
                out += words([(8, self.get(self.conc(C[pos + 1])))])
            elif o == k['rvmiPushImm']:
                out.append(C[pos + 1])
            elif o == k['rvmiPushImmq']:
                out += [C[pos + 1], 0]
            elif o == k['rvmiPushMem']:
                base, off, n = self.conc(C[pos + 1]), C[pos + 2], self.conc(C[pos + 3])
                out += [self.ev.mem(4, add(add(self.get(base), zext(off, 32, 64), 64), 4 * i, 64)) for i in range(n // 4)]
                pos += 2
            else:
                raise BadCode('microcode')
            pos += 2
        raise BadCode('microcode does not end')

    def results(self, pos, r, t):
        """the words of the result arrive in registers or memory"""
        k = LK()
        R = self.g.result = [self.ev.uf('result%d' % i, [8], 32, [0]) for i in range(16)]
        self.taken = 0
        if t == k['rvrInt']:
            self.set32(r, R[0])
            self.taken = 1
        elif t in (k['rvrLong'], k['rvrDouble']):
            self.set(r, unwords(R, [8])[0][1])
            self.taken = 2
        self.rtype = t
        C = self.consts
        i = 0
        for _ in range(32):
            if pos >= len(C):
                raise BadCode('microcode runs out of the table')
            o = self.conc(C[pos])
            if o == k['rvmiReturn']:
                self.taken = max(self.taken, i)
                if i and t != k['rvrStruct']:
                    raise BadCode('popped result of a simple type')
                return
            if o == k['rvmiPop']:
                self.set32(self.conc(C[pos + 1]), R[i])
                i += 1
            elif o == k['rvmiPopq']:
                self.set(self.conc(C[pos + 1]), unwords(R[i:], [8])[0][1])
                i += 2
            elif o == k['rvmiPopMem']:
                base, off, n = self.conc(C[pos + 1]), C[pos + 2], self.conc(C[pos + 3])
                for j in range(n // 4):
                    self.effect('store', 32, (add(add(self.get(base), zext(off, 32, 64), 64), 4 * j, 64), 64, False), (R[i + j], 32, False))
                i += n // 4
                pos += 2
            else:
                raise BadCode('microcode')
            pos += 2
        raise BadCode('microcode does not end')


class BadCode(Exception):
    pass


BIN = {}
for _o, _n in zip(BINARY, ('Add', 'Sub', 'Mul', 'Div', 'Mod', 'Pow', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor', 'Less', 'Greater', 'Lequal', 'Gequal', 'Equal', 'Nequal')):
    BIN[_n] = (_o, INT)
    BIN[_n + 'l'] = (_o, LONG)
    if _o not in ('SHL', 'SHR', 'BIT_AND', 'BIT_OR', 'BIT_XOR'):
        BIN[_n + 'd'] = (_o, DOUBLE)
    if _o in ('ADD', 'SUB', 'MUL', 'DIV'):
        BIN[_n + 'f'] = (_o, 'float')

# how the operands and the result take part in register allocation
SCENARIOS = [
    dict(x='local', ops=['dies'] * 6, freed=[], pad=0),
    dict(x='local', ops=['dies'] * 6, freed=[40, 41], pad=1),
    dict(x='outer', ops=['live'] * 6, freed=[40, 41], pad=0),
    dict(x='local', ops=['dies', 'live', 'dies', 'live', 'live', 'live'], freed=[], pad=1),
    dict(x='local', ops=['outer', 'dies', 'live', 'dies', 'dies', 'dies'], freed=[40], pad=0),
    dict(x='outer', ops=['dies'] * 6, freed=[], pad=1),
]


class Lower(Contract):
    """the register instructions emitted for an SSA instruction compute its value and have its effect"""
    fn = 'LowerInstructionIntoBlock(ExpressionContext&, RegVmLoweredFunction*, RegVmLoweredBlock*, VmValue*)'
    tus = TUS
    timeout = 30000
    max_steps = 400000

    def __init__(self, cmd, t, ats, size=None, scen=None, next_=None, prev=None, nouser=False, same=False, empty_entry=False):
        self.cmd, self.t, self.ats, self.size, self.scen, self.next, self.prev, self.nouser, self.same = cmd, t, ats, size, scen, next_, prev, nouser, same
        self.empty_entry = empty_entry
        self.name = 'lowering of %s %s(%s)%s%s%s%s' % (t + ('%d' % size if size else ''), cmd, ', '.join(ats), ' twice the same operand' if same else '', ' unused' if nouser else '',
                                                      ' next:%s' % next_ if next_ else '', ' after:%s' % (prev,) if prev else '')
        if empty_entry:
            self.name += ' entry'

    def stubs(self, Xc):
        return dict(STUBS)

    def operand(self, Xc, g, i, a):
        n = 'a%d' % i
        kind, _, rest = a.partition(':')
        if kind == 'r':
            t, _, size = rest.partition(':')
            size = int(size) if size else None
            g.inst(n, 'CALL', t, [], size=size, side=True)
            lay = layout(t, size)
            regs = [6 + 4 * i + j for j in range(len(lay))] if len(lay) <= 4 else [48 + 6 * i + j for j in range(len(lay))]
            g.place(n, regs)
            how = self.sc['ops'][i]
            if how == 'live':
                g.use[n].append('U2')
            elif how == 'outer':
                g.use[n].append('U3')
            if how != 'dies':
                g.live |= set(regs)
            Xc.put(Ptr(n, 0) + fld('VmInstruction', 'parent'), 8, Ptr('B', 0))
        elif kind == 'c':
            g.const(n, rest)
        elif kind[0] == 'k':
            # a number of a limited size
            w = int(kind[1:])
            g.const(n, INT, zext(Xc.int(n + '.value', w), w, 32))
        elif kind == '#':
            g.const(n, INT, int(rest) & M(32))
        elif kind == 'op':
            g.const(n, INT, g.k['VM_INST_' + rest])
        elif kind == 'null':
            g.const(n, PTR_, 0)
        elif kind in ('local', 'global'):
            c = 'var%d' % i
            g.container(c, kind == 'local')
            g.const(n, PTR_, zext(Xc.int(n + '.value', 22), 22, 32), container=c)
        elif kind == 'ref':
            # a variable of this type passed by value from memory
            loc, t, size = rest.split(':')
            c = 'var%d' % i
            g.container(c, loc == 'local')
            p = g.value(n, 'VmConstant', t, 'VmConstant', int(size))
            v = zext(Xc.int(n + '.value', 22), 22, 32)
            Xc.put(p + fld('VmConstant', 'iValue'), 4, v)
            Xc.put(p + fld('VmConstant', 'container'), 8, Ptr(c, 0))
            Xc.put(p + fld('VmConstant', 'isReference'), 1, 1)
            g.contname[c].append(n)
        elif kind == 'struct':
            p = g.value(n, 'VmConstant', STRUCT, 'VmConstant', int(rest))
            Xc.obj(n + '.data', int(rest))
            Xc.put(p + fld('VmConstant', 'sValue'), 8, Ptr(n + '.data', 0))
        elif kind == 'fn':
            g.vfunction('F%d' % i)
            n = 'F%d' % i
        elif kind == 'b':
            n = 'block' + rest
            if n not in g.names:
                g.block(n)
        elif kind == 'zero':
            g.inst(n, 'CALL', STRUCT, [], size=None, side=True)
            Xc.put(Ptr(n, 0) + fld('VmValue', 'type') + fld('VmType', 'size'), 4, 0)
            g.kind[n] = (VOID, 0)
            g.regs[n] = []
        else:
            raise Unsupported(a)
        return n

    def setup(self, Xc):
        E = Xc.E
        if not E.concrete_map and not Xc.concrete:
            r = E.call(Xc.st, IR_INIT, [])
            if len(r) != 1:
                raise Unsupported('static initialisation')
            Xc.st = r[0][0]
        scs = self.scen or SCENARIOS
        self.sc = scs[Xc.choice('scenario', list(range(len(scs))))]
        g = self.g = LGraph(Xc, self, self.sc['freed'], self.sc['pad'])
        g.first = None
        g.block('B')
        g.block('C')
        for u, b in (('U1', 'B'), ('U2', 'B'), ('U3', 'C')):
            g.inst(u, 'CALL', VOID, [], side=True)
            Xc.put(Ptr(u, 0) + fld('VmInstruction', 'parent'), 8, Ptr(b, 0))
        names = []
        for i, a in enumerate(self.ats):
            names.append(names[0] if self.same and i == 1 else self.operand(Xc, g, i, a))
        self.names = names
        if self.cmd == 'INDEX' and self.ats[3] == 'c:int':
            # the size of an array type is below 2 GB, so is the offset of an element inside of it (index < count, by monotonicity of multiplication)
            i, n, es = g.terms['a3'], g.terms['a0'], g.terms['a1']
            Xc.assume(Implies(ult(i, n, 32), ult(mul(zext(es, 32, 64), zext(i, 32, 64), 64), 1 << 31, 64)))
        g.inst('X', self.cmd if self.cmd in OPS else 'JUMP', self.t, names, size=self.size, side=True)
        if self.cmd not in OPS:
            Xc.put(Ptr('X', 0) + fld('VmInstruction', 'cmd'), 4, LK()['VM_INST_' + self.cmd])
        Xc.put(Ptr('X', 0) + fld('VmInstruction', 'parent'), 8, Ptr('B', 0))
        lay = layout(self.t, self.size)
        self.xpre = []
        if lay and not self.nouser:
            if self.sc['x'] == 'outer' or self.cmd == 'MOV':
                g.use['X'].append('U3')
                self.xpre = [44 + j for j in range(len(lay))]
                if self.cmd == 'MOV' and self.prev and 'same' in self.prev:
                    self.xpre = g.regs[names[0]]
                g.place('X', self.xpre)
                Xc.put(Ptr('X', 0) + fld('VmInstruction', 'regVmAllocated'), 1, 1)
            else:
                g.use['X'].append('U1')
        for u, b in (('U1', 'B'), ('U2', 'B'), ('U3', 'C')):
            g.args[u] = [n for n in g.names if u in g.use[n]]
        if self.prev:
            for w in self.prev:
                if w.startswith('mov'):
                    g.lowered('prev', 'Mov', 34, 1, 35)
                elif w.startswith('mult2'):
                    g.lowered('prev', 'MovMult', 34, 1 | 2 << 2, 35, 36 << 24 | 37 << 16)
                elif w.startswith('mult3'):
                    g.lowered('prev', 'MovMult', 34, 1 | 2 << 2 | 3 << 4, 35, 36 << 24 | 37 << 16 | 38 << 8 | 39)
                elif w.startswith('load'):
                    g.lowered('prev', 'LoadImm', 34, 0, 0, 7)
            g.live |= {34, 36, 38}
        g.finish()
        vb = Ptr('B', 0)
        Xc.put(g.lb + lo('RegVmLoweredBlock', 'vmBlock'), 8, vb)
        if self.next:
            Xc.put(vb + lo('VmBlock', 'nextSibling'), 8, Ptr(self.next, 0))
        if not self.empty_entry:
            Xc.put(vb + lo('VmBlock', 'prevSibling'), 8, Ptr('C', 0))
        for r in range(256):
            n = g.users.get(r, 0)
            if n:
                Xc.put(g.lf + lo('RegVmLoweredFunction', 'registerUsers') + 2 * r, 2, n)
        # what the instruction means
        self.m0 = Machine(Xc, g, Xc.st)
        if self.prev:
            # values are those after the preceding instruction
            self.m0.run()
        self.start = dict(self.m0.r)
        return [g.ctx, g.lf, g.lb, Ptr('X', 0)]

    # ---------------------------------------------------------------- what must hold afterwards
    def expected(self, ev, Xc, g):
        """(parts of the result, effects)"""
        c = self.cmd
        X = Ptr('X', 0)
        A = ev.args(X)
        if c.startswith('STORE_') and c == 'STORE_STRUCT':
            a = ev.address(A[0], A[1])
            out, pos = [], 0
            for n, t in ev.parts(A[2]):
                for w in words([(n, t)]):
                    out.append(['store', 32, (add(a, pos, 64), 64, False), (w, 32, False)])
                    pos += 4
            return [], out
        if c.startswith('STORE_') or c == 'MEM_COPY':
            return [], [ev.effect(X)]
        if c == 'SET_RANGE':
            t, v = ev.value(A[2])
            n = ev.num(A[3], INT)
            w = 8 * ev.conc(n)
            v = fptrunc(v) if t == DOUBLE and w == 32 else trunc(v, W[t], w) if w < W[t] else v
            return [], [['setrange', w, (ev.value(A[0])[1], 64, False), (ev.num(A[1], INT), 32, False), (v, w, False)]]
        if c in ('JUMP', 'JUMP_Z', 'JUMP_NZ', 'UNYIELD'):
            if c == 'JUMP':
                return [], [(True, A[0].base)]
            if c == 'UNYIELD':
                i = ev.num(A[0], INT)
                rest = [(eq(i, j - 1, 32), A[j].base) for j in range(2, len(A))]
                return [], rest + [(Not(Or(*[x for x, _ in rest])), A[1].base)]
            z = eq(ev.num(A[0], INT), 0, 32)
            return [], [(z, A[1 if c == 'JUMP_Z' else 2].base), (Not(z), A[2 if c == 'JUMP_Z' else 1].base)]
        if c == 'CALL':
            first = 2 if ev.type(A[0]) == 'funcref' and ev.node(A[1]) != ev.k['VmValueNode::VmFunction'] else 3
            ws = []
            for a in A[first:]:
                ws += [0] if ev.tsize(a) == 0 else words(ev.parts(a))
            if first == 3:
                ctx, target = ev.parts(A[0])[0][1], A[1].base
            else:
                (_, ctx), (_, target) = ev.parts(A[0])
            ws += words([(8, ctx)])
            eff = [['call', target, ws]]
            R = [ev.uf('result%d' % i, [8], 32, [0]) for i in range(16)]
            rt = A[first - 1]
            if ev.isconst(rt) and ev.conc(ev.rd(rt, 'VmConstant', 'isReference', 1)):
                a = add(ev.caddr(ev.ptr(ev.rd(rt, 'VmConstant', 'container', 8)).base), sext(ev.rd(rt, 'VmConstant', 'iValue', 4), 32, 64), 64)
                eff += [['store', 32, (add(a, 4 * j, 64), 64, False), (R[j], 32, False)] for j in range(ev.tsize(X) // 4)]
                return [], eff
            return unwords(R, layout(self.t, self.size)), eff
        if c in ('RETURN', 'YIELD', 'ABORT_NO_RETURN'):
            k = LK()
            if c == 'ABORT_NO_RETURN':
                return [], [['return', k['rvrError'], 0, None, None, []]]
            if not A:
                return [], [['return', k['rvrVoid'], 0, 0, 0, []]]
            t = ev.type(A[0])
            rt = {INT: 'Int', LONG: 'Long', PTR_: 'Long', DOUBLE: 'Double'}.get(t, 'Struct')
            b = {INT: 'typeInt', LONG: 'typeLong', DOUBLE: 'typeDouble', 'autoref': 'typeAutoRef', 'autoarray': 'typeAutoArray'}.get(t, 'tref')
            bt = Ptr(b, 0)
            chk = 1 if b == 'tref' else 0
            return [], [['return', k['rvr' + rt], chk, ev.E.rd(ev.S, bt + lo('TypeBase', 'typeIndex'), 4), trunc(ev.E.rd(ev.S, bt + lo('TypeBase', 'size'), 8), 64, 32), words(ev.parts(A[0]))]]
        return ev.parts(X), []

    def post(self, Xc, E0, F, ret):
        g = self.g
        ev = LEv(Xc, g, E0.copy() if hasattr(E0, 'copy') else E0)
        # operands keep the registers they had, with the contents these have before the instruction
        save = dict(g.reg0)
        m = Machine(Xc, g, F)
        # the graph is read through the registers after the preceding instruction
        gv = g.reg0
        for r in range(256):
            if r in self.start:
                gv[r] = self.start[r]
        try:
            want, eff = self.expected(ev, Xc, g)
        finally:
            g.reg0 = save
        m.g = g
        m.ev.g = g
        try:
            m.run()
            bad = None
        except BadCode as e:
            bad = str(e)
        yield 'well formed code (%s)' % bad if bad else 'well formed code', bad is None
        if bad:
            return
        # stopping operations
        tr = Or(False, *m.traps)
        wtr = Or(False, *ev.traps)
        yield 'stops the program exactly when the operation does', And(Implies(wtr, tr), Implies(tr, wtr))
        ok = Not(wtr)
        # effects
        if self.cmd in ('JUMP', 'JUMP_Z', 'JUMP_NZ', 'UNYIELD'):
            jumps = [(c, e[1]) for c, e in m.effects]
            if any(e[0] != 'jump' for _, e in m.effects):
                yield 'only jumps', False
            got = {}
            for c, b in jumps + [(m.reach, self.next)]:
                got[b] = Or(got.get(b, False), c)
            exp = {}
            for c, b in eff:
                exp[b] = Or(exp.get(b, False), c)
            for b in set(got) | set(exp):
                a_, b_ = got.get(b, False), exp.get(b, False)
                yield 'control reaches block %s' % b, And(Implies(a_, b_), Implies(b_, a_))
        else:
            got = [e for c, e in m.effects]
            norm = lambda es: [y for e in es for y in self.split(e)]
            w, n = norm(eff), norm(got)
            yield 'the effects', len(w) == len(n)
            if len(w) == len(n):
                for i, (a, b) in enumerate(zip(w, n)):
                    yield 'effect %d' % i, Implies(ok, self.matches(Xc, g, a, b))
        # result
        k = g.k
        regs = m.bytes(Ptr('X', 0) + fld('VmInstruction', 'regVmRegisters'))
        if self.cmd == 'CALL' and self.t != VOID:
            yield 'the whole result is taken', m.taken == sum(layout(self.t, self.size)) // 4 or (self.nouser and False)
            lay = layout(self.t, self.size)
            simple = {INT: 'rvrInt', LONG: 'rvrLong', PTR_: 'rvrLong', DOUBLE: 'rvrDouble'}.get(self.t, 'rvrStruct')
            yield 'the kind of the result', m.rtype == LK()[simple]
        if self.nouser:
            regs_needed = []
        else:
            yield 'registers of the result', len(regs) == len(want) and len(set(regs)) == len(regs) and all(r >= 4 for r in regs)
            if len(regs) == len(want):
                for i, (r, (n, t)) in enumerate(zip(regs, want)):
                    v = m.get(r)
                    if isinstance(v, tuple):
                        yield 'value %d of the result' % i, False
                        continue
                    if n == 4:
                        yield 'value %d of the result' % i, Implies(ok, eq(trunc(v, 64, 32), t, 32))
                    else:
                        d = self.t == DOUBLE
                        yield 'value %d of the result' % i, Implies(ok, Or(eq(v, t, 64), And(funo64(v), funo64(t))) if d else eq(v, t, 64))
            regs_needed = regs
        # registers still in use
        for r in sorted(g.live):
            v0 = self.start.get(r, g.reg(r))
            if r in regs and self.cmd == 'MOV':
                continue
            v = m.get(r)
            yield 'register %d is preserved' % r, Implies(ok, eq(v, v0, 64)) if not isinstance(v, tuple) else False
        # allocation state
        cnt = [m.conc(m.E.rd(F, g.lf + lo('RegVmLoweredFunction', 'registerUsers') + 2 * r, 2)) for r in range(256)]
        nxt = m.conc(m.E.rd(F, g.lf + lo('RegVmLoweredFunction', 'nextRegister'), 1))
        freed = m.bytes(g.lf + lo('RegVmLoweredFunction', 'freedRegisters'))
        for f in ('delayedFreedRegisters', 'constantRegisters', 'killedRegisters'):
            yield 'no ' + f, not m.bytes(g.lf + lo('RegVmLoweredFunction', f))
        yield 'free registers are the unused ones', sorted(freed) == [r for r in range(4, nxt) if cnt[r] == 0]
        exp = dict(g.users)
        dead = set()
        for n, rs in g.regs.items():
            if n != 'X' and n in self.names and not set(rs) & g.live:
                dead |= set(rs)
        for r in dead - set(self.xpre):
            exp[r] = exp.get(r, 0) - 1
        if not self.xpre and not self.nouser:
            for r in regs:
                exp[r] = exp.get(r, 0) + 1
        yield 'users of every register', all(cnt[r] == exp.get(r, 0) for r in range(4, 256))
        yield 'a register of the result is not one still in use', not (set(regs_needed) - set(self.xpre)) & g.live

    def split(self, e):
        """stores of eight bytes as two of four where the value moves as a whole"""
        if e[0] == 'store' and e[1] == 64:
            _, _, (a, _, _), (v, _, d) = e
            if d:
                return [e]
            if self.cmd == 'STORE_STRUCT':
                return [['store', 32, (a, 64, False), (trunc(v, 64, 32), 32, False)], ['store', 32, (add(a, 4, 64), 64, False), (extract(v, 63, 32), 32, False)]]
        return [e]

    def matches(self, Xc, g, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'call':
            f = (a[1] == b[1]) if isinstance(a[1], str) or isinstance(b[1], str) else eq(a[1], b[1], 32)
            return And(f, len(a[2]) == len(b[2]), *[eq(x, y, 32) for x, y in zip(a[2], b[2])])
        if a[0] == 'return':
            c = [a[1] == b[1], len(a[5]) == len(b[5])]
            if a[3] is not None:
                c += [(a[2] != 0) == (b[2] != 0), eq(a[3], b[3], 32), eq(a[4], b[4], 32)]
            return And(*c, *[eq(x, y, 32) for x, y in zip(a[5], b[5])])
        return same_effect(Xc, a, b)


FV = ['data', 'max', 'count']
_fk = None


def FK():
    global _fk
    if _fk is None:
        c = 'InstructionRegVmFinalizeContext'
        ex = ['OFF(%s,%s.%s)' % (c, f, g) for f in ('locations', 'cmds', 'constants', 'regKillInfo') for g in FV] + ['sizeof(%s)' % c]
        ex += ['OFF(%s,fixupPoints%s)' % (c, g) for g in ('', '.data', '.count', '.max', '.little')] + ['sizeof(%s::FixupPoint)' % c]
        ex += ['OFF(RegVmCmd,%s)' % f for f in ('code', 'rA', 'rB', 'rC', 'argument')] + ['sizeof(RegVmCmd)', 'OFF(RegVmLoweredFunction,blocks.data)', 'OFF(RegVmLoweredFunction,blocks.count)',
               'OFF(VmBlock,address)', 'OFF(VmFunction,regVmAddress)', 'OFF(VmFunction,regVmRegisters)', 'OFF(VmFunction,regVmCodeSize)', 'OFF(RegVmLoweredInstruction,location)', 'sizeof(VmFunction)',
               'OFF(RegVmLoweredModule,functions.data)', 'OFF(RegVmLoweredModule,functions.count)', 'OFF(RegVmLoweredModule,vmModule)', 'OFF(VmModule,regVmGlobalCodeStart)', 'sizeof(VmModule)']
        _fk = build.probe(['stdafx.h', 'InstructionTreeVm.h', 'ExpressionTree.h', 'TypeTree.h', 'InstructionTreeRegVmLower.h'], ex)
    return _fk


class Finalize(Contract):
    """register instructions are written out as they are, block arguments become instruction addresses, variables become frame offsets, functions become indices"""
    tus = TUS
    SHAPES = [  # blocks of (code, argument kind)
        [[('LoadImm', 'int'), ('Jmp', 'b1')], [('Call', 'fn'), ('Jmpz', 'b0'), ('GetAddr', 'local')]],
        [[('Mov', None), ('GetAddr', 'import')], [], [('FuncAddr', 'fn'), ('Jmpnz', 'b1'), ('Jmp', 'b2')]],
        [[('LoadDword', 'local'), ('Return', 'int')]],
    ]

    def __init__(self, module):
        self.module = module
        self.fn = 'RegVmFinalizeModule(InstructionRegVmFinalizeContext&, RegVmLoweredModule*)' if module else 'RegFinalizeFunction(InstructionRegVmFinalizeContext&, RegVmLoweredFunction*)'
        self.name = 'finalisation of a ' + ('module' if module else 'function')

    def stubs(self, Xc):
        return dict(STUBS, **TRACE)

    def function(self, Xc, i, shape, kills):
        k, L, g = FK(), LK(), self.g
        f = Xc.obj('lf%d' % i, L['sizeof(RegVmLoweredFunction)'], ('zero',))
        vf = Xc.obj('vf%d' % i, k['sizeof(VmFunction)'], ('zero',))
        Xc.put(f + lo('RegVmLoweredFunction', 'vmFunction'), 8, vf)
        nr = Xc.int('next%d' % i, 8)
        Xc.put(f + lo('RegVmLoweredFunction', 'nextRegister'), 1, nr)
        bl = []
        for j, b in enumerate(shape):
            n = 'lb%d.%d' % (i, j)
            lb = Xc.obj(n, L['sizeof(RegVmLoweredBlock)'], ('zero',))
            vb = g.block('vb%d.%d' % (i, j))
            Xc.put(Ptr(vb, 0) + k['OFF(VmBlock,address)'], 4, M(32))
            Xc.put(lb + lo('RegVmLoweredBlock', 'vmBlock'), 8, Ptr(vb, 0))
            prev = None
            out = []
            for m, (code, arg) in enumerate(b):
                q = 'li%d.%d.%d' % (i, j, m)
                p = Xc.obj(q, L['sizeof(RegVmLoweredInstruction)'], ('zero',))
                s = 'RegVmLoweredInstruction'
                Xc.put(p + lo(s, 'code'), 4, L['rvi' + code])
                regs = [Xc.int(q + r, 8) for r in ('rA', 'rB', 'rC')]
                for r, v in zip(('rA', 'rB', 'rC'), regs):
                    Xc.put(p + lo(s, r), 1, v)
                kl = []
                for x, kf in enumerate(('preKillRegisters', 'postKillRegisters')):
                    vals = [Xc.int('%s.kill%d.%d' % (q, x, y), 8) for y in range(kills[x] if m == 0 else 0)]
                    g.small(p, s, kf, q + kf, vals, esz=1, fld=lo)
                    kl.append(vals)
                want = None
                if arg == 'int':
                    a = g.const(q + '.a', INT)
                    want = g.terms[a]
                elif arg in ('local', 'import'):
                    c = g.container(q + '.c')
                    a = g.const(q + '.a', INT, container=c)
                    want = add(g.terms[a], g.cont[c][1], 32)
                    if arg == 'import':
                        ii = Xc.int(q + '.module', 7)
                        md = Xc.obj(q + '.md', L['sizeof(ModuleData)'], ('zero',))
                        Xc.put(md + lo('ModuleData', 'importIndex'), 4, zext(ii, 7, 32))
                        Xc.put(Ptr(c, 0) + lo('VariableData', 'importModule'), 8, md)
                        want = add(want, shl(zext(ii, 7, 32), 24, 32), 32)
                elif arg == 'fn':
                    g.vfunction('F' + q)
                    a = g.value(q + '.a', 'VmConstant', INT, 'VmConstant') and q + '.a'
                    Xc.put(Ptr(a, 0) + lo('VmConstant', 'fValue'), 8, Ptr('F' + q, 0))
                    want = g.terms['F' + q]
                elif arg:
                    a = g.value(q + '.a', 'VmConstant', BLOCK, 'VmConstant') and q + '.a'
                    Xc.put(Ptr(a, 0) + lo('VmConstant', 'bValue'), 8, Ptr('vb%d.%s' % (i, arg[1:]), 0))
                    want = int(arg[1:])
                if arg:
                    Xc.put(p + lo(s, 'argument'), 8, Ptr(a, 0))
                if prev:
                    Xc.put(prev + lo(s, 'nextSibling'), 8, p)
                else:
                    Xc.put(lb + lo('RegVmLoweredBlock', 'firstInstruction'), 8, p)
                prev = p
                out.append((code, regs, arg, want, kl))
            if prev:
                Xc.put(lb + lo('RegVmLoweredBlock', 'lastInstruction'), 8, prev)
            bl.append((lb, out))
        arr = Xc.obj('blocks%d' % i, 8 * max(len(bl), 1))
        for j, (lb, _) in enumerate(bl):
            Xc.put(arr + 8 * j, 8, lb)
        Xc.put(f + k['OFF(RegVmLoweredFunction,blocks.data)'], 8, arr)
        Xc.put(f + k['OFF(RegVmLoweredFunction,blocks.count)'], 4, len(bl))
        return f, nr, [o for _, o in bl]

    def setup(self, Xc):
        k, L = FK(), LK()
        E = Xc.E
        if not E.concrete_map and not Xc.concrete:
            r = E.call(Xc.st, IR_INIT, [])
            Xc.st = r[0][0]
        g = self.g = LGraph(Xc, self, [], 0)
        c = 'InstructionRegVmFinalizeContext'
        self.ctx = Xc.obj('fin', k['sizeof(%s)' % c], ('zero',))
        self.n0 = 0 if self.module else Xc.choice('emitted', [0, 3])
        self.k0 = 0 if self.module else 2 * self.n0
        for f, es, n in (('locations', 8, self.n0), ('cmds', k['sizeof(RegVmCmd)'], self.n0), ('constants', 4, 0), ('regKillInfo', 1, self.k0)):
            o = Xc.obj('fin.' + f, 256 * es)
            for h, v, w in (('data', o, 8), ('max', 256, 4), ('count', n, 4)):
                Xc.put(self.ctx + k['OFF(%s,%s.%s)' % (c, f, h)], w, v)
        self.old = Xc.st
        fx = k['OFF(%s,fixupPoints' % c + ')']
        o = Xc.obj('fix', 32 * k['sizeof(%s::FixupPoint)' % c], ('zero',))
        Xc.put(self.ctx + k['OFF(%s,fixupPoints.data)' % c], 8, o)
        Xc.put(self.ctx + k['OFF(%s,fixupPoints.max)' % c], 4, 32)
        kills = Xc.choice('kills', [(0, 0), (2, 1), (1, 17)])
        if self.module:
            sh = Xc.choice('functions', [0, 1])
            self.fs = [self.function(Xc, i, self.SHAPES[x], kills) for i, x in enumerate([(2, 0), (0, 1)][sh])]
            self.entry = 1 - sh
            for i, (f, _, _) in enumerate(self.fs):
                if i != self.entry:
                    Xc.put(Ptr('vf%d' % i, 0) + fld('VmFunction', 'function'), 8, Xc.obj('fd', 64, ('zero',)))
            arr = Xc.obj('fns', 16)
            for i, (f, _, _) in enumerate(self.fs):
                Xc.put(arr + 8 * i, 8, f)
            Xc.put(g.lm + k['OFF(RegVmLoweredModule,functions.data)'], 8, arr)
            Xc.put(g.lm + k['OFF(RegVmLoweredModule,functions.count)'], 4, 2)
            Xc.put(g.lm + k['OFF(RegVmLoweredModule,vmModule)'], 8, g.module)
            n = Xc.choice('table', [2, 1])
            Xc.put(g.lm + lo('RegVmLoweredModule', 'constants.count'), 4, n)
            self.tn = n
            return [self.ctx, g.lm]
        self.fs = [self.function(Xc, 0, self.SHAPES[Xc.choice('shape', [0, 1, 2])], kills)]
        return [self.ctx, self.fs[0][0]]

    def post(self, Xc, E0, F, ret):
        k, L, E = FK(), LK(), Xc.E
        c = 'InstructionRegVmFinalizeContext'
        cs = k['sizeof(RegVmCmd)']
        cnt = lambda f: E.rd(F, self.ctx + k['OFF(%s,%s.count)' % (c, f)], 4)
        dat = lambda f: E.pp(E.rd(F, self.ctx + k['OFF(%s,%s.data)' % (c, f)], 8))
        cmd = lambda i, f, n: E.rd(F, dat('cmds') + i * cs + k['OFF(RegVmCmd,%s)' % f], n)
        pos, kp = self.n0, self.k0
        if self.module:
            yield 'the entry jump', And(eq(cmd(0, 'code', 1), L['rviJmp'], 8), eq(E.rd(F, dat('regKillInfo'), 1), 0, 8))
            pos, kp = 1, 1
        for i, (f, nr, blocks) in enumerate(self.fs):
            start = pos
            addr = []
            for b in blocks:
                addr.append(pos)
                pos += len(b)
            pos = start
            vf = Ptr('vf%d' % i, 0)
            yield 'function address', eq(E.rd(F, vf + k['OFF(VmFunction,regVmAddress)'], 4), start, 32)
            yield 'function registers', eq(E.rd(F, vf + k['OFF(VmFunction,regVmRegisters)'], 4), ite(eq(nr, 0, 8), 256, zext(nr, 8, 32), 32), 32)
            for j, b in enumerate(blocks):
                yield 'block address', eq(E.rd(F, Ptr('vb%d.%d' % (i, j), 0) + k['OFF(VmBlock,address)'], 4), addr[j], 32)
                for m, (code, regs, arg, want, kl) in enumerate(b):
                    yield 'operation', And(eq(cmd(pos, 'code', 1), L['rvi' + code], 8), *[eq(cmd(pos, r, 1), v, 8) for r, v in zip(('rA', 'rB', 'rC'), regs)])
                    if arg:
                        yield 'argument %s' % arg, eq(cmd(pos, 'argument', 4), addr[want] if arg[0] == 'b' else want, 32)
                    ks = [v[:15] for v in kl]
                    rd = lambda: E.rd(F, dat('regKillInfo') + kp, 1)
                    yield 'kill counts', eq(rd(), len(ks[0]) << 4 | len(ks[1]), 8)
                    kp += 1
                    for v in ks[0] + ks[1]:
                        yield 'killed register', eq(rd(), v, 8)
                        kp += 1
                    pos += 1
            yield 'code size', eq(E.rd(F, vf + k['OFF(VmFunction,regVmCodeSize)'], 4), pos - start, 32)
            if self.module and i == self.entry:
                yield 'entry point', And(eq(cmd(0, 'argument', 4), start, 32), eq(E.rd(F, self.g.module + k['OFF(VmModule,regVmGlobalCodeStart)'], 4), start, 32))
        yield 'number of instructions', And(eq(cnt('cmds'), pos, 32), eq(cnt('locations'), pos, 32), eq(cnt('regKillInfo'), kp, 32))
        yield 'no fixups are left', eq(E.rd(F, self.ctx + k['OFF(%s,fixupPoints.count)' % c], 4), 0, 32)
        if self.module:
            yield 'constants', And(eq(cnt('constants'), 2, 32), *[eq(E.rd(F, dat('constants') + 4 * i, 4), self.g.consts0[i], 32) for i in range(self.tn)])
        if not self.module:
            o0, o1 = E.obj(E0, 'fin.cmds'), E.obj(F, 'fin.cmds')
            yield 'earlier instructions are kept', And(*[eq(o0.byte(i), o1.byte(i), 8) for i in range(self.n0 * cs)])


def cat(*bs):
    v = 0
    for b in bs:
        v = or_(shl(v, 8, 32), zext(b, 8, 32), 32)
    return v


class Find(Contract):
    """a constant that is reported to be in the table is there"""
    tus = TUS
    use_init = ()

    def __init__(self, two):
        self.two = two
        self.fn = 'RegVmLoweredModule::FindConstant(unsigned int%s)' % (', unsigned int' if two else '')
        self.name = 'search for a constant of %d words' % (2 if two else 1)

    def setup(self, Xc):
        n = Xc.int('count', 32)
        Xc.assume(ule(n, 1 << 24, 32))      # a call addresses the table with 24 bits
        self.lm = Xc.obj('lm', LK()['sizeof(RegVmLoweredModule)'], ('zero',))
        t = Xc.obj('table', simp(mul(zext(n, 32, 64), 4, 64)))
        s = 'RegVmLoweredModule'
        Xc.put(self.lm + lo(s, 'constants.data'), 8, t)
        Xc.put(self.lm + lo(s, 'constants.count'), 4, n)
        Xc.put(self.lm + lo(s, 'constants.max'), 4, n)
        self.n = n
        self.v = [Xc.int('v%d' % i, 32) for i in range(2 if self.two else 1)]
        return [self.lm] + self.v

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        w = len(self.v)
        found = ne(ret, 0, 32)
        ix = lambda j: zext(simp(add(sub(ret, 1, 32), j, 32)), 32, 64)
        yield 'the position is inside of the table', Implies(found, And(ule(ix(w - 1), zext(sub(self.n, 1, 32), 32, 64), 64), ule(ix(0), ix(w - 1), 64)))
        o = E.obj(E0, 'table')
        at = lambda j: cat(*[o.byte(simp(add(mul(ix(j), 4, 64), b, 64))) for b in (3, 2, 1, 0)])
        for j, v in enumerate(self.v):
            yield 'word %d' % j, Implies(found, eq(simp(at(j)), v, 32))
        yield 'frame', unchanged(Xc, E0, F, 'table')


def contracts():
    out = [Finalize(False), Finalize(True), Find(False), Find(True)]
    ADDR = [['r:ptr', 'k22'], ['local', '#:0'], ['global', '#:0']]
    for a in ADDR:
        for c, t in (('LOAD_BYTE', INT), ('LOAD_SHORT', INT), ('LOAD_INT', INT), ('LOAD_LONG', LONG), ('LOAD_LONG', PTR_), ('LOAD_DOUBLE', DOUBLE), ('LOAD_FLOAT', DOUBLE)):
            out.append(Lower(c, t, a))
        for c, ts in (('STORE_BYTE', [INT]), ('STORE_SHORT', [INT]), ('STORE_INT', [INT]), ('STORE_LONG', [LONG, PTR_]), ('STORE_DOUBLE', [DOUBLE]), ('STORE_FLOAT', [DOUBLE])):
            for t in ts:
                out.append(Lower(c, VOID, a + ['r:' + t]))
                out.append(Lower(c, VOID, a + [{INT: 'c:int', LONG: 'c:long', PTR_: 'null', DOUBLE: 'c:double'}[t]]))
        out.append(Lower('STORE_LONG', VOID, a + ['local']))
        out.append(Lower('STORE_INT', VOID, a + ['fn']))
        for t, size in [('funcref', None), ('arrayref', None), ('autoref', None), ('autoarray', None)] + [(STRUCT, n) for n in (4, 8, 12, 16, 20, 24, 32)]:
            out.append(Lower('LOAD_STRUCT', t, a, size))
            out.append(Lower('STORE_STRUCT', VOID, a + ['r:%s%s' % (t, ':%d' % size if size else '')]))
            if t == STRUCT:
                out.append(Lower('STORE_STRUCT', VOID, a + ['struct:%d' % size]))
    for t, c in ((INT, 'c:int'), (DOUBLE, 'c:double'), (LONG, 'c:long'), (PTR_, 'null'), (PTR_, 'local'), (PTR_, 'global')):
        out.append(Lower('LOAD_IMMEDIATE', t, [c]))
    for c, a, t in (('DOUBLE_TO_INT', DOUBLE, INT), ('DOUBLE_TO_LONG', DOUBLE, LONG), ('DOUBLE_TO_FLOAT', DOUBLE, INT), ('INT_TO_DOUBLE', INT, DOUBLE), ('LONG_TO_DOUBLE', LONG, DOUBLE),
                    ('INT_TO_LONG', INT, LONG), ('LONG_TO_INT', LONG, INT)):
        for kd in 'rc':
            out.append(Lower(c, t, [kd + ':' + a]))
    for p in ('r:ptr', 'local', 'global'):
        for i in ('r:int', 'c:int', '#:0'):
            out.append(Lower('INDEX', PTR_, ['k31', 'k16', p, i]))
    for i in ('r:int', 'c:int'):
        out.append(Lower('INDEX_UNSIZED', PTR_, ['k16', 'r:arrayref', i]))
    out.append(Lower('FUNCTION_ADDRESS', INT, ['c:int']))
    out.append(Lower('TYPE_ID', INT, ['c:int']))
    for v, n in (('r:int', 1), ('r:int', 2), ('r:int', 4), ('c:int', 4), ('c:int', 1), ('r:long', 8), ('c:long', 8), ('r:double', 4), ('r:double', 8), ('c:double', 4)):
        for p in ('r:ptr', 'local', 'global'):
            out.append(Lower('SET_RANGE', VOID, [p, 'c:int', v, '#:%d' % n]))
    for d in ADDR:
        for s in ADDR:
            out.append(Lower('MEM_COPY', VOID, d + s + ['c:int']))
    for nx in (None, 'block1', 'block2'):
        out.append(Lower('JUMP', VOID, ['b:1'], next_=nx))
        out.append(Lower('JUMP', VOID, ['b:1'], next_=nx, empty_entry=True))
        for c in ('JUMP_Z', 'JUMP_NZ'):
            for a in ('r:int', 'c:int'):
                out.append(Lower(c, VOID, [a, 'b:1', 'b:2'], next_=nx))
        for n in (2, 3, 4):
            out.append(Lower('UNYIELD', VOID, ['r:int'] + ['b:%d' % i for i in range(1, n)], next_=nx, prev=('load',)))
    for op in BINARY:
        for t in (INT, LONG, DOUBLE, PTR_):
            if t == DOUBLE and op in ('SHL', 'SHR', 'BIT_AND', 'BIT_OR', 'BIT_XOR') or t == PTR_ and op not in ('EQUAL', 'NOT_EQUAL'):
                continue
            rt = t if op in BINARY[:11] else INT
            cst = 'c:' + t if t != PTR_ else 'null'
            for a in (['r:' + t, 'r:' + t], ['r:' + t, cst], [cst, 'r:' + t]):
                out.append(Lower(op, rt, a))
            out.append(Lower(op, rt, ['r:' + t, 'r:' + t], same=True))
            if t == PTR_:
                out.append(Lower(op, rt, ['r:ptr', 'local']))
                continue
            for a in ADDR:
                if t == DOUBLE:
                    out.append(Lower(op + '_LOAD', rt, ['r:double'] + a + ['op:LOAD_DOUBLE']))
                    if op in ('ADD', 'SUB', 'MUL', 'DIV'):
                        out.append(Lower(op + '_LOAD', rt, ['r:double'] + a + ['op:LOAD_FLOAT']))
                else:
                    out.append(Lower(op + '_LOAD', rt, ['r:' + t] + a + ['op:' + {INT: 'LOAD_INT', LONG: 'LOAD_LONG'}[t]]))
    for a in (['r:ptr', 'c:int'], ['local', 'c:int']):
        out.append(Lower('ADD', PTR_, a))
    for c, ts in (('NEG', (INT, LONG, DOUBLE)), ('BIT_NOT', (INT, LONG)), ('LOG_NOT', (INT, LONG, PTR_))):
        for t in ts:
            for kd in 'rc':
                if t == PTR_ and kd == 'c':
                    continue
                out.append(Lower(c, INT if c == 'LOG_NOT' else t, [kd + ':' + t]))
    for nu in (False, True):
        out.append(Lower('CONVERT_POINTER', PTR_, ['r:autoref', 'c:int'], nouser=nu))
    out.append(Lower('ABORT_NO_RETURN', VOID, []))
    for p in ('r:ptr', 'local', 'null'):
        out.append(Lower('CONSTRUCT', 'funcref', [p, 'fn']))
        for i in ('r:int', 'c:int'):
            out.append(Lower('CONSTRUCT', 'arrayref', [p, i]))
            out.append(Lower('CONSTRUCT', 'autoref', [i, p]))
            for j in ('r:int', 'c:int'):
                out.append(Lower('CONSTRUCT', 'autoarray', [i, p, j]))
    for i in ('r:int', 'c:int'):
        out.append(Lower('CONSTRUCT', 'autoarray', [i, 'r:arrayref']))
    for t in ('funcref', 'arrayref', 'autoref', 'autoarray'):
        n = XT[t][1]
        out.append(Lower('BITCAST', t, ['r:struct:%d' % n]))
        out.append(Lower('BITCAST', STRUCT, ['r:' + t], n))
        out.append(Lower('BITCAST', t, ['r:' + t]))
    for a, b in ((PTR_, 'r:ptr'), (LONG, 'r:ptr'), (PTR_, 'r:long'), (INT, 'r:int'), (LONG, 'r:double'), (DOUBLE, 'r:long'), (INT, 'r:struct:4'), (LONG, 'r:struct:8'), (PTR_, 'r:struct:8'),
                 (INT, 'fn'), (PTR_, 'local')):
        out.append(Lower('BITCAST', a, [b]))
    MS = [SCENARIOS[0], SCENARIOS[2]]
    for t in (INT, LONG, DOUBLE, PTR_):
        for pv in (None, ('mov',), ('mult2',), ('mult3',), ('load',), ('same',)):
            for a in ('r:' + t, 'c:' + t if t != PTR_ else 'null'):
                if a[0] != 'r' and pv == ('same',):
                    continue
                out.append(Lower('MOV', t, [a], scen=MS if pv != ('same',) else [SCENARIOS[4]], prev=pv))
    ARGS = [[], ['r:int', 'r:double'], ['c:int', 'c:double', 'c:long'], ['r:ptr', 'null', 'local'], ['r:arrayref', 'r:autoref'], ['r:funcref', 'r:autoarray'], ['r:struct:12', 'struct:16'],
            ['ref:local:struct:48', 'r:int'], ['ref:global:struct:20'], ['zero', 'r:long'], ['local', 'global']]
    for ar in ARGS:
        for h in (['r:ptr', 'fn', '#:0'], ['null', 'fn', '#:0'], ['local', 'fn', '#:0'], ['r:funcref', '#:0']):
            out.append(Lower('CALL', VOID, h + ar, scen=[SCENARIOS[0], SCENARIOS[2], SCENARIOS[4]]))
    for t, size in ((INT, None), (LONG, None), (DOUBLE, None), (PTR_, None), ('funcref', None), ('arrayref', None), ('autoref', None), ('autoarray', None), (STRUCT, 4), (STRUCT, 8), (STRUCT, 12),
                    (STRUCT, 24)):
        for h in (['r:ptr', 'fn', '#:0'], ['r:funcref', '#:0']):
            for nu in (False, True):
                out.append(Lower('CALL', t, h + ['r:int'], size, nouser=nu, scen=SCENARIOS[:4]))
    for h in (['r:ptr', 'fn'], ['r:funcref']):
        for loc in ('local', 'global'):
            out.append(Lower('CALL', STRUCT, h + ['ref:%s:struct:48' % loc, 'r:int'], 48, nouser=True))
    for c in ('RETURN', 'YIELD'):
        out.append(Lower(c, VOID, []))
        for a in ('r:int', 'r:long', 'r:double', 'r:ptr', 'c:int', 'c:long', 'c:double', 'null', 'local', 'r:funcref', 'r:arrayref', 'r:autoref', 'r:autoarray', 'r:struct:12', 'r:struct:8', 'struct:12',
                  'ref:local:struct:48', 'ref:global:struct:12'):
            if c == 'YIELD' and a[0] != 'r':
                continue
            out.append(Lower(c, VOID, [a], scen=[SCENARIOS[0], SCENARIOS[2]]))
    return out


def prepare():
    vmgraph.K()
    LK()
