"""SSA instruction graphs of the compiler (InstructionTreeVm.h) as entry states, and their meaning.

A graph is built from the real structures (VmInstruction, VmConstant, VmBlock) with symbolic
constants and opaque operands; Ev computes the value or effect an instruction denotes from the
structures in a state, so the same definition reads the graph before and after an optimisation."""
import os
from .common import *

SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim_ir.cpp')
INT, LONG, DOUBLE, PTR_, BLOCK, VOID, STRUCT = 'int', 'long', 'double', 'ptr', 'block', 'void', 'struct'
W = {INT: 32, LONG: 64, DOUBLE: 64, PTR_: 64, BLOCK: 64}
OPS = ['LOAD_BYTE', 'LOAD_SHORT', 'LOAD_INT', 'LOAD_FLOAT', 'LOAD_DOUBLE', 'LOAD_LONG', 'LOAD_STRUCT', 'LOAD_IMMEDIATE', 'STORE_BYTE', 'STORE_SHORT', 'STORE_INT', 'STORE_FLOAT',
       'STORE_DOUBLE', 'STORE_LONG', 'STORE_STRUCT', 'DOUBLE_TO_INT', 'DOUBLE_TO_LONG', 'DOUBLE_TO_FLOAT', 'INT_TO_DOUBLE', 'LONG_TO_DOUBLE', 'INT_TO_LONG', 'LONG_TO_INT', 'INDEX',
       'INDEX_UNSIZED', 'FUNCTION_ADDRESS', 'TYPE_ID', 'SET_RANGE', 'MEM_COPY', 'JUMP', 'JUMP_Z', 'JUMP_NZ', 'CALL', 'RETURN', 'YIELD', 'ADD', 'SUB', 'MUL', 'DIV', 'POW', 'MOD', 'LESS',
       'GREATER', 'LESS_EQUAL', 'GREATER_EQUAL', 'EQUAL', 'NOT_EQUAL', 'SHL', 'SHR', 'BIT_AND', 'BIT_OR', 'BIT_XOR', 'NEG', 'BIT_NOT', 'LOG_NOT', 'CONVERT_POINTER', 'CONSTRUCT', 'ARRAY',
       'EXTRACT', 'PHI', 'BITCAST', 'MOV', 'ADD_LOAD', 'SUB_LOAD', 'MUL_LOAD', 'DIV_LOAD', 'POW_LOAD', 'MOD_LOAD', 'LESS_LOAD', 'GREATER_LOAD', 'LESS_EQUAL_LOAD', 'GREATER_EQUAL_LOAD',
       'EQUAL_LOAD', 'NOT_EQUAL_LOAD', 'SHL_LOAD', 'SHR_LOAD', 'BIT_AND_LOAD', 'BIT_OR_LOAD', 'BIT_XOR_LOAD']
TYPES = ['VOID', 'INT', 'DOUBLE', 'LONG', 'BLOCK', 'FUNCTION', 'POINTER', 'STRUCT', 'AUTO_REF', 'ARRAY_REF']
FIELDS = dict(VmValue=['typeID', 'type', 'users', 'source', 'hasSideEffects', 'hasMemoryAccess', 'canBeRemoved'], VmType=['type', 'size', 'structType'],
              VmConstant=['iValue', 'dValue', 'lValue', 'sValue', 'container', 'isFloat', 'bValue', 'isReference'],
              VmInstruction=['cmd', 'uniqueId', 'arguments', 'regVmRegisters', 'regVmAllocated', 'regVmCompletedUsers', 'parent', 'prevSibling', 'nextSibling', 'regVmSearchMarker'],
              VmFunction=['function'],
              VmBlock=['firstInstruction', 'lastInstruction', 'parent'],
              VmModule=['allocator', 'tempUsers', 'peepholeOptimizations', 'constantPropagations', 'deadCodeEliminations', 'tempInstructions'],
              VariableData=['users', 'offsetUsers', 'regVmUsers', 'type', 'offset', 'isVmRegSpill', 'isVmAlloca', 'scope', 'usedAsExternal'])
SA = ['allocator', 'data', 'max', 'count']
LISTS = ('users', 'regVmUsers', 'arguments', 'regVmRegisters', 'tempUsers', 'tempInstructions')
BINARY = ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'POW', 'SHL', 'SHR', 'BIT_AND', 'BIT_OR', 'BIT_XOR', 'LESS', 'GREATER', 'LESS_EQUAL', 'GREATER_EQUAL', 'EQUAL', 'NOT_EQUAL')
CTXTYPES = ['typeBool', 'typeChar', 'typeShort', 'typeInt', 'typeLong', 'typeFloat', 'typeDouble', 'typeAutoRef', 'typeAutoArray', 'typeVoid']
_k = None


def K():
    global _k
    if _k is None:
        ex = ['VM_INST_' + o for o in OPS] + ['VM_TYPE_' + t for t in TYPES] + ['VmValueNode::Vm' + x for x in ('Constant', 'Instruction', 'Block', 'Function', 'Void')]
        for s, fs in FIELDS.items():
            ex.append('sizeof(%s)' % s)
            ex += ['OFF(%s,%s)' % (s, f) for f in fs] + ['OFF(%s,%s.%s)' % (s, f, g) for f in fs if f in LISTS for g in SA]
        ex += ['sizeof(ExpressionContext)', 'OFF(ExpressionContext,allocator)', 'TypeNode::TypeRef', 'TypeNode::TypeInt', 'sizeof(TypeClass)', 'sizeof(TypeRef)', 'OFF(TypeRef,typeID)']
        ex += ['OFF(ExpressionContext,%s)' % f for f in CTXTYPES]
        ex += ['OFF(MU,%s)' % f for f in ('bucketCount', 'count', 'data', 'storage', 'allocator')] + ['sizeof(MU::Node)']
        p = os.path.join(build.tmp(), 'vmgraph.h')
        open(p + '.%d' % os.getpid(), 'w').write('#include "%s/NULLC/InstructionTreeVm.h"\n#include "%s/NULLC/ExpressionTree.h"\n#include "%s/NULLC/TypeTree.h"\n'
                                                 'typedef decltype(((VariableData*)0)->offsetUsers) MU;\n'
                                                 % ((build.REPO,) * 3))
        os.rename(p + '.%d' % os.getpid(), p)
        _k = build.probe(['stdafx.h', '<%s>' % p], ex)
    return _k


def fld(s, f):
    return K()['OFF(%s,%s)' % (s, f)]


def alloc_stub(E, st, a, I):
    n = st.ghost.get('nodes', 0)
    st.ghost['nodes'] = n + 1
    if not isc(a[1]):
        raise Unsupported('symbolic node size')
    name = 'node%d' % n
    p = E.new_obj(st, name, a[1], ('zero',))
    if E.X is not None:
        E.X.align[name] = 16
    return p


def dealloc_stub(E, st, a, I):
    return None


class Graph:
    """entry graph"""

    def __init__(self, Xc, contract):
        self.Xc, self.c = Xc, contract
        self.k = K()
        self.use = {}        # value -> list of users
        self.args = {}
        self.names = []
        self.terms = {}      # opaque/constant value terms by object name
        E = Xc.E
        E.X = Xc
        # an allocator with the two virtual functions in use
        vt = Xc.obj('avt', 8 * 8, ('zero',))
        for i in range(8):
            Xc.put(vt + 8 * i, 8, Ptr('fn:vc_alloc' if i == 2 else 'fn:vc_dealloc', 0))
        self.alloc = Xc.obj('allocator', 16, ('zero',))
        Xc.put(self.alloc, 8, vt)
        self.ctx = Xc.obj('ctx', self.k['sizeof(ExpressionContext)'], ('zero',))
        Xc.put(self.ctx + fld('ExpressionContext', 'allocator'), 8, self.alloc)
        self.module = Xc.obj('module', self.k['sizeof(VmModule)'], ('zero',))
        Xc.put(self.module + fld('VmModule', 'allocator'), 8, self.alloc)
        self.tref = Xc.obj('tref', self.k['sizeof(TypeRef)'], ('zero',))
        Xc.put(self.tref + fld('TypeRef', 'typeID'), 4, self.k['TypeNode::TypeRef'])
        self.small(self.module, 'VmModule', 'tempUsers', 'module.tempUsers', [])
        self.contname = {}
        for o in ('avt', 'allocator', 'ctx', 'module', 'tref'):
            Xc.align[o] = 16
        for f in CTXTYPES:
            Xc.obj(f, self.k['sizeof(TypeClass)'], ('zero',))
            Xc.align[f] = 16
            Xc.put(Ptr(f, 0) + fld('TypeRef', 'typeID'), 4, self.k['TypeNode::TypeInt'])
            Xc.put(self.ctx + fld('ExpressionContext', f), 8, Ptr(f, 0))

    def small(self, p, cls, field, name, vals, cap=64, esz=8, fld=fld):
        """a SmallArray that was grown to external storage"""
        Xc = self.Xc
        Xc.obj(name, cap * esz, ('zero',))
        Xc.align[name] = 16
        Xc.put(p + fld(cls, field + '.allocator'), 8, self.alloc)
        Xc.put(p + fld(cls, field + '.data'), 8, Ptr(name, 0))
        Xc.put(p + fld(cls, field + '.max'), 4, cap)
        Xc.put(p + fld(cls, field + '.count'), 4, len(vals))
        for i, v in enumerate(vals):
            Xc.put(Ptr(name, esz * i), esz, v)

    def vtype(self, t, size=None, ty=None):
        k = self.k
        return {INT: (k['VM_TYPE_INT'], 4), LONG: (k['VM_TYPE_LONG'], 8), DOUBLE: (k['VM_TYPE_DOUBLE'], 8), PTR_: (k['VM_TYPE_POINTER'], 8), BLOCK: (k['VM_TYPE_BLOCK'], 4),
                VOID: (k['VM_TYPE_VOID'], 0), STRUCT: (k['VM_TYPE_STRUCT'], size or 16), 'autoref': (k['VM_TYPE_AUTO_REF'], 12), 'arrayref': (k['VM_TYPE_ARRAY_REF'], 12)}[t]

    def value(self, name, cls, t, node, size=None):
        Xc, k = self.Xc, self.k
        p = Xc.obj(name, k['sizeof(%s)' % cls], ('zero',))
        Xc.align[name] = 16
        tp = p + fld('VmValue', 'type')
        a, b = self.vtype(t, size)
        Xc.put(p + fld('VmValue', 'typeID'), 4, k['VmValueNode::' + node])
        Xc.put(tp + fld('VmType', 'type'), 4, a)
        Xc.put(tp + fld('VmType', 'size'), 4, b)
        if t in (PTR_, STRUCT, 'arrayref'):
            Xc.put(tp + fld('VmType', 'structType'), 8, self.tref)
        Xc.put(p + fld('VmValue', 'canBeRemoved'), 1, 1)
        self.use[name] = []
        self.names.append(name)
        return p

    def const(self, name, t, val=None, container=None):
        Xc = self.Xc
        p = self.value(name, 'VmConstant', t, 'VmConstant')
        f = {INT: ('iValue', 4), LONG: ('lValue', 8), DOUBLE: ('dValue', 8), PTR_: ('iValue', 4)}[t]
        if val is None:
            val = Xc.int(name + '.value', f[1] * 8, t == DOUBLE)
        Xc.put(p + fld('VmConstant', f[0]), f[1], val)
        self.terms[name] = val
        if container:
            Xc.put(p + fld('VmConstant', 'container'), 8, Ptr(container, 0))
            self.contname[container].append(name)
        return name

    def container(self, name):
        Xc, k = self.Xc, self.k
        p = Xc.obj(name, k['sizeof(VariableData)'], ('zero',))
        Xc.align[name] = 16
        self.contname[name] = []
        # the map from offsets to constants of that offset starts empty
        m = p + fld('VariableData', 'offsetUsers')
        Xc.put(m + k['OFF(MU,bucketCount)'], 4, 8)
        Xc.obj(name + '.map', 8 * k['sizeof(MU::Node)'], ('zero',))
        Xc.align[name + '.map'] = 16
        Xc.put(m + k['OFF(MU,data)'], 8, Ptr(name + '.map', 0))
        Xc.put(m + k['OFF(MU,allocator)'], 8, self.alloc)
        return name

    def inst(self, name, cmd, t, args, users=(), size=None, side=False):
        Xc, k = self.Xc, self.k
        p = self.value(name, 'VmInstruction', t, 'VmInstruction', size)
        Xc.put(p + fld('VmInstruction', 'cmd'), 4, k['VM_INST_' + cmd])
        Xc.put(p + fld('VmInstruction', 'uniqueId'), 4, len(self.names))
        if side:
            Xc.put(p + fld('VmValue', 'hasSideEffects'), 1, 1)
        self.args[name] = list(args)
        for a in args:
            self.use[a].append(name)
        return name

    def opaque(self, name, t, size=None):
        """an instruction whose value is arbitrary (a function call result)"""
        self.inst(name, 'CALL', t, [], size=size, side=True)
        if t in W:
            self.terms[name] = self.Xc.int(name + '.value', W[t], t == DOUBLE)
        return name

    def block(self, name):
        p = self.value(name, 'VmBlock', BLOCK, 'VmBlock')
        self.use[name].append('outside')
        return name

    def finish(self):
        """writes the use lists"""
        Xc = self.Xc
        for c, u in self.contname.items():
            self.small(Ptr(c, 0), 'VariableData', 'users', c + '.users', [Ptr(n, 0) for n in u])
        if any('outside' in u for u in self.use.values()):
            self.value('outside', 'VmInstruction', VOID, 'VmInstruction')
            Xc.put(Ptr('outside', 0) + fld('VmInstruction', 'cmd'), 4, self.k['VM_INST_JUMP'])
            self.args['outside'] = [n for n, u in self.use.items() if 'outside' in u]
        for n in self.names:
            p = Ptr(n, 0)
            self.small(p, 'VmValue', 'users', n + '.users', [Ptr(u, 0) for u in self.use[n]])
            if n in self.args:
                self.small(p, 'VmInstruction', 'arguments', n + '.args', [Ptr(u, 0) for u in self.args[n]])


def nan64(x):
    return funo64(x)


def funo64(x):
    if isc(x):
        return (x & M(63)) > 0x7ff0000000000000
    return z3.UGT(bv(x, 64) & M(63), z3.BitVecVal(0x7ff0000000000000, 64))


class Ev:
    """meaning of a graph in a state"""

    def __init__(self, Xc, g, S, exact=False):
        self.Xc, self.g, self.S, self.E = Xc, g, S, Xc.E
        self.k = g.k
        self.exact = exact
        self.tname = {g.k['VM_TYPE_INT']: INT, g.k['VM_TYPE_LONG']: LONG, g.k['VM_TYPE_DOUBLE']: DOUBLE, g.k['VM_TYPE_POINTER']: PTR_, g.k['VM_TYPE_BLOCK']: BLOCK,
                      g.k['VM_TYPE_VOID']: VOID, g.k['VM_TYPE_STRUCT']: STRUCT, g.k['VM_TYPE_AUTO_REF']: 'autoref', g.k['VM_TYPE_ARRAY_REF']: 'arrayref'}
        self.oname = {g.k['VM_INST_' + o]: o for o in OPS}
        self.traps = []

    def rd(self, p, s, f, n):
        return self.E.rd(self.S, p + fld(s, f), n)

    def ptr(self, p):
        p = self.E.pp(p)
        if p.base is None or not isc(p.off):
            raise Unsupported('graph pointer %r' % (p,))
        return p

    def conc(self, v):
        if not isc(v):
            raise Unsupported('symbolic graph structure')
        return v

    def array(self, p, cls, field, lim=64):
        n = self.conc(self.rd(p, cls, field + '.count', 4))
        d = self.ptr(self.rd(p, cls, field + '.data', 8)) if n else None
        return [self.ptr(self.E.rd(self.S, d + 8 * i, 8)) for i in range(min(n, lim))]

    def node(self, p):
        return self.conc(self.rd(p, 'VmValue', 'typeID', 4))

    def type(self, p):
        return self.tname.get(self.conc(self.E.rd(self.S, p + fld('VmValue', 'type') + fld('VmType', 'type'), 4)), 'other')

    def tsize(self, p):
        return self.conc(self.E.rd(self.S, p + fld('VmValue', 'type') + fld('VmType', 'size'), 4))

    def cmd(self, p):
        return self.oname.get(self.conc(self.rd(p, 'VmInstruction', 'cmd', 4)), '?')

    def args(self, p):
        return self.array(p, 'VmInstruction', 'arguments')

    def users(self, p):
        return self.array(p, 'VmValue', 'users')

    def isconst(self, p):
        return self.node(p) == self.k['VmValueNode::VmConstant']

    def uf(self, name, ws, rw, args):
        if self.Xc.concrete:
            import hashlib
            h = int.from_bytes(hashlib.md5(repr((name, args)).encode()).digest()[:8], 'little')
            return h & M(rw)
        return UF(name, ws, rw)(*[bv(a, w) for a, w in zip(args, ws)])

    def caddr(self, name):
        return self.uf('addr:' + name, [8], 64, [0])

    def const(self, p):
        """(type, term)"""
        t = self.type(p)
        if t == INT:
            return t, self.rd(p, 'VmConstant', 'iValue', 4)
        if t == LONG:
            return t, self.rd(p, 'VmConstant', 'lValue', 8)
        if t == DOUBLE:
            return t, self.rd(p, 'VmConstant', 'dValue', 8)
        if t == PTR_:
            c = self.E.pp(self.rd(p, 'VmConstant', 'container', 8))
            off = self.rd(p, 'VmConstant', 'iValue', 4)
            if c.base is None:
                return t, sext(off, 32, 64)
            return t, add(self.caddr(c.base), sext(off, 32, 64), 64)
        raise Unsupported('constant of type ' + t)

    def trap(self, c):
        c = simp(c)
        if c is not False:
            self.traps.append(c)

    def value(self, p):
        nd = self.node(p)
        k = self.k
        if nd == k['VmValueNode::VmConstant']:
            return self.const(p)
        if nd == k['VmValueNode::VmBlock']:
            return BLOCK, self.E.p2i(p)
        if p.base in self.g.terms:
            return self.type(p), self.g.terms[p.base]
        return self.type(p), self.op(p)

    def num(self, p, t=None):
        tt, v = self.value(p)
        if t and tt != t:
            raise Unsupported('operand type %s, expected %s' % (tt, t))
        return v

    def fp(self, op, a, b):
        if self.exact and not self.Xc.concrete:
            # IEEE identities: x * 1 = x, x / 1 = x, x + -0 = x, x - +0 = x (up to the payload of a NaN)
            one, nz = 0x3ff0000000000000, 1 << 63
            r = fop(op, [a, b], 64)
            if op in ('fmul', 'fadd'):
                r = ite(eq(a, one if op == 'fmul' else nz, 64), b, r, 64)
            return ite(eq(b, {'fmul': one, 'fdiv': one, 'fadd': nz, 'fsub': 0}[op], 64), a, r, 64)
        return fop(op, [a, b], 64)

    def address(self, p, off):
        t, b = self.value(p)
        o = self.num(off, INT)
        return simp(add(b, sext(o, 32, 64), 64))

    def op(self, p):
        c, t, A = self.cmd(p), self.type(p), self.args(p)
        w = W.get(t)
        if c in ('MOV', 'BITCAST'):
            return self.num(A[0])
        if c == 'LOAD_IMMEDIATE':
            return self.num(A[0], t)
        if c == 'DOUBLE_TO_INT':
            return fptosi(self.num(A[0], DOUBLE), 64, 32)
        if c == 'DOUBLE_TO_LONG':
            return fptosi(self.num(A[0], DOUBLE), 64, 64)
        if c == 'DOUBLE_TO_FLOAT':
            return fptrunc(self.num(A[0], DOUBLE))
        if c == 'INT_TO_DOUBLE':
            return itofp(self.num(A[0], INT), 32, 64, True)
        if c == 'LONG_TO_DOUBLE':
            return itofp(self.num(A[0], LONG), 64, 64, True)
        if c == 'INT_TO_LONG':
            return sext(self.num(A[0], INT), 32, 64)
        if c == 'LONG_TO_INT':
            return trunc(self.num(A[0], LONG), 64, 32)
        if c == 'ADD' and t == PTR_:
            v = 0
            for a in A:
                ta, x = self.value(a)
                v = add(v, sext(x, 32, 64) if ta == INT else x, 64)
            return v
        if c.endswith('_LOAD'):
            lt = self.oname.get(self.conc(self.num(A[3], INT)), '?')
            ta, x = self.value(A[0])
            return self.binary(c[:-5], t, ta, x, self.load(lt, ta, self.address(A[1], A[2])))
        if c in BINARY:
            (ta, x), (tb, y) = self.value(A[0]), self.value(A[1])
            if ta != tb or (c in BINARY[:11] and ta != t):
                raise Unsupported('operand types %s, %s of %s %s' % (ta, tb, t, c))
            return self.binary(c, t, ta, x, y)
        if c == 'NEG':
            a = self.num(A[0], t)
            return xor(a, 1 << 63, 64) if t == DOUBLE else sub(0, a, w)
        if c == 'BIT_NOT':
            return xor(self.num(A[0], t), M(w), w)
        if c == 'LOG_NOT':
            ta, a = self.value(A[0])
            return b2i(eq(a, 0, W[ta]), 32)
        if c == 'INDEX':
            ln, es, (tp, b), ix = self.num(A[0], INT), self.num(A[1], INT), self.value(A[2]), self.num(A[3], INT)
            self.trap(Not(ult(ix, ln, 32)))
            return add(b, mul(zext(es, 32, 64), zext(ix, 32, 64), 64), 64)
        if c == 'INDEX_UNSIZED' and self.cmd(A[1]) == 'ARRAY':
            B = self.args(A[1])
            es, (tp, b), ln, ix = self.num(A[0], INT), self.value(B[0]), self.num(B[1], INT), self.num(A[2], INT)
            self.trap(Not(ult(ix, ln, 32)))
            return add(b, mul(zext(es, 32, 64), zext(ix, 32, 64), 64), 64)
        if c == 'EXTRACT' and self.cmd(A[0]) == 'LOAD_STRUCT':
            B = self.args(A[0])
            return self.uf('mem%d' % (w // 8), [64], w, [simp(add(self.address(B[0], B[1]), sext(self.num(A[1], INT), 32, 64), 64))])
        if c == 'TYPE_ID':
            return self.num(A[0], INT)
        if c.startswith('LOAD_'):
            return self.load(c, t, self.address(A[0], A[1]))
        if c == 'CONVERT_POINTER':
            to = self.num(A[1], INT)
            if self.node(A[0]) == self.k['VmValueNode::VmInstruction'] and self.cmd(A[0]) == 'CONSTRUCT':
                ty, (tp, v) = self.num(self.args(A[0])[0], INT), self.value(self.args(A[0])[1])
                self.trap(Not(self.convertible(ty, to)))
                return v
        raise Unsupported('meaning of %s (%s)' % (c, t))

    def load(self, c, t, addr):
        w = W[t]
        n = {'LOAD_BYTE': 1, 'LOAD_SHORT': 2, 'LOAD_INT': 4, 'LOAD_FLOAT': 4, 'LOAD_DOUBLE': 8, 'LOAD_LONG': 8}[c]
        m = self.uf('mem%d' % n, [64], 8 * n, [addr])
        if c == 'LOAD_FLOAT':
            return fpext(m)
        return sext(m, 8 * n, w) if 8 * n < w else m

    def binary(self, c, t, ta, a, b):
        w = W[t]
        if c in BINARY[:11]:
            if t == DOUBLE:
                if c in ('MOD', 'POW'):
                    return fop({'MOD': 'fmod', 'POW': 'pow'}[c], [a, b], 64)
                return self.fp({'ADD': 'fadd', 'SUB': 'fsub', 'MUL': 'fmul', 'DIV': 'fdiv'}[c], a, b)
            if c in ('DIV', 'MOD'):
                self.trap(Or(eq(b, 0, w), And(eq(a, 1 << (w - 1), w), eq(b, M(w), w))))
                bb = ite(eq(b, 0, w), 1, b, w)
                return sdiv(a, bb, w) if c == 'DIV' else srem(a, bb, w)
            if c == 'POW':
                return self.uf('ipow%d' % w, [w, w], w, [a, b])
            if c in ('SHL', 'SHR'):
                return shl(a, b, w) if c == 'SHL' else ashr(a, b, w)
            return {'ADD': add, 'SUB': sub, 'MUL': mul, 'BIT_AND': and_, 'BIT_OR': or_, 'BIT_XOR': xor}[c](a, b, w)
        if ta == DOUBLE:
            r = fcmp({'LESS': 'olt', 'GREATER': 'ogt', 'LESS_EQUAL': 'ole', 'GREATER_EQUAL': 'oge', 'EQUAL': 'oeq', 'NOT_EQUAL': 'une'}[c], a, b, 64)
        else:
            ww = W[ta]
            r = {'LESS': lambda: slt(a, b, ww), 'GREATER': lambda: slt(b, a, ww), 'LESS_EQUAL': lambda: sle(a, b, ww), 'GREATER_EQUAL': lambda: sle(b, a, ww),
                 'EQUAL': lambda: eq(a, b, ww), 'NOT_EQUAL': lambda: ne(a, b, ww)}[c]()
        return b2i(r, 32)

    def convertible(self, a, b):
        r = self.uf('convertible', [32, 32], 8, [a, b])
        return Or(eq(a, b, 32), ne(r, 0, 8))

    def effect(self, p):
        """what executing the instruction does: a list of terms (term, width, is double)"""
        c, A = self.cmd(p), self.args(p)
        if c in ('JUMP', 'JUMP_NZ', 'JUMP_Z'):
            if c == 'JUMP':
                return ['jump', (self.num(A[0], BLOCK), 64, False)]
            t, v = self.value(A[0])
            z = eq(v, 0, W[t])
            x, y = self.num(A[1], BLOCK), self.num(A[2], BLOCK)
            return ['jump', (ite(z, y, x, 64) if c == 'JUMP_NZ' else ite(z, x, y, 64), 64, False)]
        if c.startswith('STORE_'):
            t, v = self.value(A[2])
            if c == 'STORE_FLOAT':
                v, w = (fptrunc(v), 32) if t == DOUBLE else (v, 32)
            else:
                w = {'STORE_BYTE': 8, 'STORE_SHORT': 16, 'STORE_INT': 32, 'STORE_DOUBLE': 64, 'STORE_LONG': 64}[c]
                v = trunc(v, W[t], w) if w < W[t] else v
            return ['store', w, (self.address(A[0], A[1]), 64, False), (v, w, t == DOUBLE)]
        if c == 'MEM_COPY':
            return ['copy', (self.address(A[0], A[1]), 64, False), (self.address(A[2], A[3]), 64, False), (self.num(A[4], INT), 32, False)]
        if c in ('RETURN', 'CALL', 'PHI', 'YIELD'):
            out = [c]
            for a in A:
                t, v = self.value(a)
                out.append((v, W[t], t == DOUBLE))
            return out
        t, v = self.value(p)
        return ['value', (v, W[t], t == DOUBLE)]


def same_effect(Xc, e1, e2):
    """e1 and e2 denote the same effect"""
    if len(e1) != len(e2):
        return False
    c = []
    for a, b in zip(e1, e2):
        if not isinstance(a, tuple):
            c.append(a == b)
            continue
        (x, w, d), (y, w2, d2) = a, b
        if w != w2:
            return False
        if d or d2:
            c.append(Or(eq(x, y, w), And(funo64(x), funo64(y))) if w == 64 else eq(x, y, w))
        else:
            c.append(eq(x, y, w))
    return And(*c) if c else True


def uses_consistent(ev, names):
    """every argument of a reachable instruction lists it as a user exactly as often as it uses it, and conversely"""
    seen, todo = {}, [Ptr(n, 0) for n in names]
    args = {}
    while todo:
        p = todo.pop()
        if p.base in seen:
            continue
        seen[p.base] = p
        if ev.node(p) == ev.k['VmValueNode::VmInstruction']:
            args[p.base] = [a.base for a in ev.args(p)]
            todo += ev.args(p)
        todo += ev.users(p)
    for n, p in seen.items():
        u = [x.base for x in ev.users(p)]
        for i in set(u) | {m for m in args if n in args[m]}:
            if u.count(i) != args.get(i, []).count(n):
                return False
    return True
