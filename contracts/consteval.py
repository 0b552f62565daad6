"""Compile-time evaluation of expressions (ExpressionEval.cpp): array sizes, enum values, conditions of static if, alignment."""
import os, itertools
from .common import *
from .vmgraph import alloc_stub, dealloc_stub, SHIM

TUS = ['ExpressionEval.cpp', 'ExpressionTree.cpp', SHIM]
TYPES = ['Bool', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double', 'Void', 'TypeID', 'NullPtr', 'FunctionID', 'AutoRef', 'AutoArray']
SIZE = dict(Bool=1, Char=1, Short=2, Int=4, Long=8, Float=4, Double=8, Void=0, TypeID=4, NullPtr=8, FunctionID=4, AutoRef=12, AutoArray=16, Enum=4, Ref=8)
LITS = ['Bool', 'Character', 'Integer', 'Rational', 'Type', 'Nullptr', 'Pointer', 'Memory']
BIN = ['ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'POW', 'SHL', 'SHR', 'LESS', 'LESS_EQUAL', 'GREATER', 'GREATER_EQUAL', 'EQUAL', 'NOT_EQUAL', 'BIT_AND', 'BIT_OR', 'BIT_XOR', 'LOGICAL_AND',
       'LOGICAL_OR', 'LOGICAL_XOR']
CMP = ('LESS', 'LESS_EQUAL', 'GREATER', 'GREATER_EQUAL', 'EQUAL', 'NOT_EQUAL')
UN = ['PLUS', 'NEGATE', 'BIT_NOT', 'LOGICAL_NOT']
CASTS = ['NUMERICAL', 'PTR_TO_BOOL', 'NULL_TO_PTR', 'REINTERPRET', 'UNSIZED_TO_BOOL', 'ARRAY_PTR_TO_UNSIZED']
FIELDS = dict(ExprBase=['typeID', 'type', 'source', 'next'], ExprTypeCast=['value', 'category'], ExprUnaryOp=['op', 'value'], ExprBinaryOp=['op', 'lhs', 'rhs'],
              ExprConditional=['condition', 'trueBlock', 'falseBlock'], ExprArrayIndex=['value', 'index'], ExprMemberAccess=['value', 'member'], ExprDereference=['value'], ExprGetAddress=['variable'],
              ExprAssignment=['lhs', 'rhs'], ExprPreModify=['value', 'isIncrement'], ExprPostModify=['value', 'isIncrement'],
              ExprBoolLiteral=['value'], ExprCharacterLiteral=['value'], ExprIntegerLiteral=['value'], ExprRationalLiteral=['value'], ExprTypeLiteral=['value'], ExprNullptrLiteral=[],
              ExprPointerLiteral=['ptr', 'end'], ExprMemoryLiteral=['ptr'],
              TypeBase=['typeID', 'size', 'refType'], TypeRef=['subType'], TypeArray=['subType', 'length'], TypeUnsizedArray=['subType'], TypeEnum=[],
              ExpressionEvalContext=['errorBuf', 'errorBufSize', 'errorCritical', 'globalFrame', 'instruction', 'instructionsLimit', 'expressionDepth', 'expressionDepthLimit',
                                     'variableMemoryLimit', 'totalMemory', 'totalMemoryLimit'],
              VariableHandle=['variable'], VariableData=['type', 'offset'])
_k = None


def K():
    global _k
    if _k is None:
        ex = ['SYN_BINARY_OP_' + o for o in BIN] + ['SYN_UNARY_OP_' + o for o in UN] + ['EXPR_CAST_' + o for o in CASTS]
        for s, fs in FIELDS.items():
            ex.append('sizeof(%s)' % s)
            ex += ['OFF(%s,%s)' % (s, f) for f in fs]
            if s.startswith('Expr') and s not in ('ExprBase', 'ExpressionEvalContext'):
                ex.append('%s::myTypeID' % s)
        ex += ['sizeof(TypeClass)', 'sizeof(ExpressionEvalContext::StackFrame)', 'OFF(ExpressionEvalContext::StackFrame,targetYield)'] + ['OFF(ExpressionEvalContext::StackFrame,variables.%s)' % g for g in ('allocator', 'data', 'max', 'count')]
        ex += ['sizeof(ExpressionEvalContext::StackVariable)', 'OFF(ExpressionEvalContext::StackVariable,variable)', 'OFF(ExpressionEvalContext::StackVariable,ptr)']
        ex += ['OFF(ExpressionEvalContext,%s.%s)' % (f, g) for f in ('stackFrames', 'abandonedMemory') for g in ('allocator', 'data', 'max', 'count')]
        ex += ['TypeNode::Type' + t for t in ('Ref', 'Array', 'UnsizedArray', 'Enum', 'Int', 'Bool', 'Char', 'Short', 'Long', 'Float', 'Double', 'Void', 'TypeID', 'Nullptr', 'FunctionID', 'AutoRef',
                                              'AutoArray', 'Class')]
        ex += ['sizeof(ExpressionContext)', 'OFF(ExpressionContext,allocator)'] + ['OFF(ExpressionContext,type%s)' % t for t in TYPES]
        p = os.path.join(build.tmp(), 'consteval.h')
        open(p + '.%d' % os.getpid(), 'w').write(''.join('#include "%s/NULLC/%s"\n' % (build.REPO, h) for h in ('ExpressionEval.h', 'ExpressionTree.h', 'TypeTree.h')))
        os.rename(p + '.%d' % os.getpid(), p)
        _k = build.probe(['stdafx.h', '<%s>' % p], ex)
    return _k


def fld(s, f):
    return K()['OFF(%s,%s)' % (s, f)]


INTS = ('Bool', 'Char', 'Short', 'Int', 'Long', 'Enum')
FLTS = ('Float', 'Double')


class Eval(Contract):
    tus = TUS
    fn = 'Evaluate(ExpressionEvalContext&, ExprBase*)'
    timeout = 30000

    def stubs(self, Xc):
        return {'vc_alloc': alloc_stub, 'vc_dealloc': dealloc_stub}

    def o(self, name, size):
        p = self.Xc.obj(name, size, ('zero',))
        self.Xc.align[name] = 16
        return p

    def start(self, Xc):
        k = K()
        self.Xc = Xc
        Xc.E.X = Xc
        vt = self.o('avt', 64)
        for i in range(8):
            Xc.put(vt + 8 * i, 8, Ptr('fn:vc_alloc' if i == 2 else 'fn:vc_dealloc', 0))
        al = self.o('allocator', 16)
        Xc.put(al, 8, vt)
        c = self.o('ectx', k['sizeof(ExpressionContext)'])
        Xc.put(c + fld('ExpressionContext', 'allocator'), 8, al)
        for t in TYPES + ['Enum']:
            self.mktype(t, t.replace('NullPtr', 'Nullptr'), SIZE[t])
            if t != 'Enum':
                Xc.put(c + fld('ExpressionContext', 'type' + t), 8, Ptr('t' + t, 0))
        e = self.o('ctx', k['sizeof(ExpressionEvalContext)'])
        Xc.put(e, 8, c)
        f = lambda n: fld('ExpressionEvalContext', n)
        for n, v in (('instructionsLimit', 65536), ('expressionDepthLimit', 2048), ('variableMemoryLimit', 8192), ('totalMemoryLimit', 65536)):
            Xc.put(e + f(n), 4, v)
        fr = self.o('frame', k['sizeof(ExpressionEvalContext::StackFrame)'])
        Xc.put(e + f('globalFrame'), 8, fr)
        fs = self.o('frames', 256)
        Xc.put(fs, 8, fr)
        for n, cnt, d in (('stackFrames', 1, fs), ('abandonedMemory', 0, self.o('abandoned', 256))):
            Xc.put(e + f(n + '.allocator'), 8, al)
            Xc.put(e + f(n + '.data'), 8, d)
            Xc.put(e + f(n + '.max'), 4, 32)
            Xc.put(e + f(n + '.count'), 4, cnt)
        for n, v in (('allocator', al), ('data', self.o('variables', 16 * 32))):
            Xc.put(fr + k['OFF(ExpressionEvalContext::StackFrame,variables.%s)' % n], 8, v)
        Xc.put(fr + k['OFF(ExpressionEvalContext::StackFrame,variables.max)'], 4, 32)
        self.nvar = 0
        self.vals = {}
        return e

    def mktype(self, name, node, size, sub=None, length=None):
        """a type and the reference type to it"""
        Xc, k = self.Xc, K()
        p = self.o('t' + name, k['sizeof(TypeClass)'])
        Xc.put(p + fld('TypeBase', 'typeID'), 4, k['TypeNode::Type' + node])
        Xc.put(p + fld('TypeBase', 'size'), 8, size)
        if sub:
            Xc.put(p + fld('Type' + node, 'subType'), 8, Ptr('t' + sub, 0))
        if length is not None:
            Xc.put(p + fld('TypeArray', 'length'), 8, length)
        r = self.o('tr' + name, k['sizeof(TypeClass)'])
        Xc.put(r + fld('TypeBase', 'typeID'), 4, k['TypeNode::TypeRef'])
        Xc.put(r + fld('TypeBase', 'size'), 8, 8)
        Xc.put(r + fld('TypeRef', 'subType'), 8, p)
        Xc.put(p + fld('TypeBase', 'refType'), 8, r)
        rr = self.o('trr' + name, k['sizeof(TypeClass)'])
        Xc.put(rr + fld('TypeBase', 'typeID'), 4, k['TypeNode::TypeRef'])
        Xc.put(rr + fld('TypeBase', 'size'), 8, 8)
        Xc.put(rr + fld('TypeRef', 'subType'), 8, r)
        Xc.put(r + fld('TypeBase', 'refType'), 8, rr)
        return p

    def node(self, name, cls, ty):
        Xc, k = self.Xc, K()
        p = self.o(name, k['sizeof(%s)' % cls])
        Xc.put(p + fld('ExprBase', 'typeID'), 4, k[cls + '::myTypeID'])
        Xc.put(p + fld('ExprBase', 'type'), 8, Ptr(ty, 0))
        return p

    def lit(self, name, ty):
        """a literal of a type with an arbitrary value of that type; its value as 64 bits (integers sign-extended)"""
        Xc = self.Xc
        if ty == 'Bool':
            p = self.node(name, 'ExprBoolLiteral', 'tBool')
            b = Xc.bool(name + '.value')
            Xc.put(p + fld('ExprBoolLiteral', 'value'), 1, b2i(b, 8))
            v = b2i(b, 64)
            self.flag = b
        elif ty == 'Char':
            p = self.node(name, 'ExprCharacterLiteral', 'tChar')
            x = Xc.int(name + '.value', 8)
            Xc.put(p + fld('ExprCharacterLiteral', 'value'), 1, x)
            v = sext(x, 8, 64)
        elif ty in FLTS:
            p = self.node(name, 'ExprRationalLiteral', 't' + ty)
            v = Xc.int(name + '.value', 64, True)
            Xc.put(p + fld('ExprRationalLiteral', 'value'), 8, v)
        elif ty in ('Short', 'Int', 'Long', 'Enum', 'CharI', 'BoolI'):
            # intermediate results of char, short and bool arithmetic are integer literals of that type
            p = self.node(name, 'ExprIntegerLiteral', 't' + ty.replace('I', '') if ty.endswith('I') else 't' + ty)
            x = Xc.int(name + '.value', 64 if ty == 'Long' else 32)
            v = x if ty == 'Long' else sext(x, 32, 64)
            if ty == 'BoolI':
                Xc.assume(ule(x, 1, 32))
            Xc.put(p + fld('ExprIntegerLiteral', 'value'), 8, v)
        elif ty == 'TypeID':
            p = self.node(name, 'ExprTypeLiteral', 'tTypeID')
            v = Ptr('t' + Xc.choice(name, ['Int', 'Long']), 0)
            Xc.put(p + fld('ExprTypeLiteral', 'value'), 8, v)
        elif ty == 'null':
            p = self.node(name, 'ExprNullptrLiteral', 'trInt')
            v = NULL
        elif ty.startswith('p:'):
            # p:<element type>:<object>:<offset>
            _, et, ob, off = ty.split(':')
            v = Ptr(ob, int(off))
            p = self.address(name, et, v, self.E_size(et))
        else:
            raise KeyError(ty)
        self.vals[name] = v
        return p

    def literal(self, name, et, v, n):
        """a pointer literal"""
        Xc = self.Xc
        p = self.node(name, 'ExprPointerLiteral', 'tr' + et)
        Xc.put(p + fld('ExprPointerLiteral', 'ptr'), 8, v)
        Xc.put(p + fld('ExprPointerLiteral', 'end'), 8, v + n)
        return p

    def address(self, name, et, v, n):
        """the address of a variable whose storage is at v"""
        Xc = self.Xc
        p = self.literal(name + '.storage', et, v, n)
        var = self.o(name + '.var', K()['sizeof(VariableData)'])
        Xc.put(var + fld('VariableData', 'type'), 8, Ptr('t' + et, 0))
        h = self.o(name + '.handle', K()['sizeof(VariableHandle)'])
        Xc.put(h + fld('VariableHandle', 'variable'), 8, var)
        Xc.put(Ptr('variables', 16 * self.nvar), 8, var)
        Xc.put(Ptr('variables', 16 * self.nvar + 8), 8, p)
        self.nvar += 1
        Xc.put(Ptr('frame', K()['OFF(ExpressionEvalContext::StackFrame,variables.count)']), 4, self.nvar)
        x = self.node(name, 'ExprGetAddress', 'tr' + et)
        Xc.put(x + fld('ExprGetAddress', 'variable'), 8, h)
        return x

    def E_size(self, t):
        return SIZE.get(t) or self.sizes[t]

    # ------------------------------------------------------- result
    def result(self, Xc, F, ret):
        """(kind, type object, value)"""
        E, k = Xc.E, K()
        if isinstance(ret, int) and ret == 0 or (isinstance(ret, Ptr) and ret.base is None):
            return ('none', None, None)
        p = E.pp(ret) if not isinstance(ret, Ptr) else ret
        id_ = E.rd(F, p + fld('ExprBase', 'typeID'), 4)
        ty = E.pp(E.rd(F, p + fld('ExprBase', 'type'), 8)).base
        for l in LITS:
            if eq(id_, k['Expr%sLiteral::myTypeID' % l], 32) is True:
                c = 'Expr%sLiteral' % l
                if l == 'Bool':
                    return l, ty, zext(E.rd(F, p + fld(c, 'value'), 1), 8, 64)
                if l == 'Character':
                    return l, ty, sext(E.rd(F, p + fld(c, 'value'), 1), 8, 64)
                if l in ('Integer', 'Rational', 'Type'):
                    return l, ty, E.rd(F, p + fld(c, 'value'), 8)
                if l == 'Pointer':
                    return l, ty, (E.rd(F, p + fld(c, 'ptr'), 8), E.rd(F, p + fld(c, 'end'), 8))
                if l == 'Memory':
                    return l, ty, p
                return l, ty, 0
        return ('other', ty, id_)

    def critical(self, Xc, F):
        return ne(Xc.E.rd(F, Ptr('ctx', fld('ExpressionEvalContext', 'errorCritical')), 1), 0, 8)

    def ispath(self, Xc, F, ret):
        return not (isinstance(ret, int) and ret == 0 or (isinstance(ret, Ptr) and ret.base is None))


def intres(kind, v, w, want):
    """an integer-like literal whose value is the w-bit integer want"""
    if kind not in ('Bool', 'Character', 'Integer'):
        return False
    return eq(v, sext(want, w, 64), 64)


def width(ty):
    return 64 if ty == 'Long' else 32


class Binary(Eval):
    max_steps = 2000000

    def __init__(self, op, ty):
        self.op, self.ty = op, ty
        self.name = 'compile-time %s of %s' % (op, ty)
        self.cut_all = op == 'POW' and ty in INTS

    def setup(self, Xc):
        k = K()
        c = self.start(Xc)
        ty = self.ty
        rt = 'tBool' if self.op in CMP or self.op.startswith('LOGICAL') else {'CharI': 'tChar', 'BoolI': 'tBool', 'ref': 'tBool'}.get(ty, 't' + ty)
        if ty == 'ref':
            self.o('mem', 64)
            self.sizes = {}
            l = self.lit('lhs', Xc.choice('lhs', ['null', 'p:Int:mem:0', 'p:Int:mem:8']))
            r = self.lit('rhs', Xc.choice('rhs', ['null', 'p:Int:mem:0', 'p:Int:mem:8']))
        else:
            l, r = self.lit('lhs', ty), self.lit('rhs', ty)
        n = self.node('X', 'ExprBinaryOp', rt)
        Xc.put(n + fld('ExprBinaryOp', 'op'), 4, k['SYN_BINARY_OP_' + self.op])
        Xc.put(n + fld('ExprBinaryOp', 'lhs'), 8, l)
        Xc.put(n + fld('ExprBinaryOp', 'rhs'), 8, r)
        self.rt = rt
        w = width(ty)
        if self.op in ('SHL', 'SHR'):
            # a shift by the width or more has no defined value; a negative one is an error
            Xc.assume(slt(self.vals['rhs'], w, 64))
        if self.cut_all:
            Xc.E.mul_uf = True
        self.ip = UF('ipow%d' % w, [w, w], w)
        return [c, n]

    def templates(self, E, f, header, view):
        return pow_templates(self, view, trunc(self.vals['lhs'], 64, width(self.ty)), trunc(self.vals['rhs'], 64, width(self.ty)))

    def post(self, Xc, E0, F, ret):
        op, ty = self.op, self.ty
        kind, rt, v = self.result(Xc, F, ret)
        crit = self.critical(Xc, F)
        a, b = self.vals['lhs'], self.vals['rhs']
        if ty in ('ref', 'TypeID'):
            same = a.base == b.base and a.off == b.off
            yield 'comparison of references', And(kind == 'Bool', eq(v, int(same == (op == 'EQUAL')), 64) if kind == 'Bool' else False)
            yield 'type of the result', rt == self.rt
            return
        if ty in FLTS:
            want = {'ADD': 'fadd', 'SUB': 'fsub', 'MUL': 'fmul', 'DIV': 'fdiv', 'MOD': 'frem', 'POW': 'pow'}
            if op in want:
                yield 'value of the operation', And(kind == 'Rational', eq(v, fop(want[op], [a, b], 64), 64) if kind == 'Rational' else False)
            else:
                r = fcmp({'LESS': 'olt', 'GREATER': 'ogt', 'LESS_EQUAL': 'ole', 'GREATER_EQUAL': 'oge', 'EQUAL': 'oeq', 'NOT_EQUAL': 'une'}[op], a, b, 64)
                yield 'value of the comparison', And(kind == 'Bool', eq(v, b2i(r, 64), 64) if kind == 'Bool' else False)
            yield 'type of the result', rt == self.rt
            return
        w = width(ty)
        x, y = trunc(a, 64, w), trunc(b, 64, w)
        bad = False
        if op in ('DIV', 'MOD'):
            bad = Or(eq(y, 0, w), And(eq(x, 1 << (w - 1), w), eq(y, M(w), w)))
        elif op in ('POW', 'SHL', 'SHR'):
            bad = slt(y, 0, w)
        if kind == 'none':
            yield 'an operation with a value is evaluated', bad
            yield 'an operation that stops the program is an error', crit
            return
        yield 'an operation that stops the program is not evaluated', Not(bad)
        yield 'type of the result', rt == self.rt
        nz = lambda t: ne(t, 0, w)
        if op in CMP:
            r = {'LESS': slt(x, y, w), 'GREATER': slt(y, x, w), 'LESS_EQUAL': sle(x, y, w), 'GREATER_EQUAL': sle(y, x, w), 'EQUAL': eq(x, y, w), 'NOT_EQUAL': ne(x, y, w)}[op]
            yield 'value of the comparison', And(kind == 'Bool', eq(v, b2i(r, 64), 64) if kind == 'Bool' else False)
        elif op.startswith('LOGICAL'):
            r = {'AND': And(nz(x), nz(y)), 'OR': Or(nz(x), nz(y)), 'XOR': Not(Iff(nz(x), nz(y)))}[op[8:]]
            yield 'value of the logical operation', And(kind == 'Bool', eq(v, b2i(r, 64), 64) if kind == 'Bool' else False)
        elif op == 'POW':
            if Xc.concrete:
                want = pow(sg(x, w) & M(w), sg(y, w), 1 << w) if not slt(y, 0, w) else 0
            else:
                want = self.ip(bv(x, w), bv(y, w))
            yield 'value of the power', intres(kind, v, w, want)
        else:
            if op in ('DIV', 'MOD'):
                y = ite(eq(y, 0, w), 1, y, w)
            r = {'ADD': add, 'SUB': sub, 'MUL': mul, 'DIV': sdiv, 'MOD': srem, 'SHL': shl, 'SHR': ashr, 'BIT_AND': and_, 'BIT_OR': or_, 'BIT_XOR': xor}[op](x, y, w)
            yield 'value of the operation', intres(kind, v, w, r)


def pow_templates(c, view, n0, p0):
    """result * number^power stays number0^power0, whichever variables hold them"""
    w, ip = width(c.ty), c.ip
    um = UF('umul%d' % w, [w, w], w)
    B = lambda x: bv(x, w)
    names = [('phi', a) for a, ww, i, cc, s in view.phis if ww == w]
    for b, cs in view.cells.items():
        for off in cs:
            names.append(('cell', b, off))

    def get(v, n):
        if n[0] == 'phi':
            return {a: cc for a, ww, i, cc, s in v.phis}[n[1]]
        return v.E.rd(v.st, Ptr(n[1], n[2]), w // 8)
    out = []
    for r, n, p in itertools.permutations(names, 3):
        def fn(v, r=r, n=n, p=p):
            R, N, P = get(v, r), get(v, n), get(v, p)
            if any(isinstance(q, Ptr) for q in (R, N, P)):
                return False
            prod = ip(B(N), B(P)) if isc(R) and R == 1 else um(B(R), ip(B(N), B(P)))
            return And(prod == ip(B(n0), B(p0)), sge(P, 0, w))

        def facts(v, r=r, n=n, p=p):
            R, N, P = B(get(v, r)), B(get(v, n)), B(get(v, p))
            half = ip(um(N, N), z3.LShR(P, 1))
            return z3.And(ip(N, 0) == 1, um(R, B(1)) == R, um(N, R) == um(R, N), um(um(N, R), half) == um(R, um(N, half)), um(um(R, N), half) == um(R, um(N, half)),
                          z3.Implies(P > 0, ip(N, P) == z3.If(P & 1 == 1, um(N, half), half)))
        out.append(('pow %s %s %s' % (r, n, p), fn, facts))
    return out


class Unary(Eval):
    def __init__(self, op, ty):
        self.op, self.ty = op, ty
        self.name = 'compile-time unary %s of %s' % (op, ty)

    def setup(self, Xc):
        c = self.start(Xc)
        ty = self.ty
        self.o('mem', 64)
        self.sizes = {}
        l = self.lit('value', ty if ty != 'ref' else Xc.choice('value', ['null', 'p:Int:mem:0']))
        self.rt = 'tBool' if self.op == 'LOGICAL_NOT' else {'CharI': 'tChar'}.get(ty, 't' + ty)
        n = self.node('X', 'ExprUnaryOp', self.rt)
        Xc.put(n + fld('ExprUnaryOp', 'op'), 4, K()['SYN_UNARY_OP_' + self.op])
        Xc.put(n + fld('ExprUnaryOp', 'value'), 8, l)
        return [c, n]

    def post(self, Xc, E0, F, ret):
        kind, rt, v = self.result(Xc, F, ret)
        a = self.vals['value']
        yield 'type of the result', rt == self.rt
        if self.ty == 'ref':
            yield 'negation of a reference', And(kind == 'Bool', eq(v, int(a.base is None), 64) if kind == 'Bool' else False)
            return
        if self.ty in FLTS:
            w = a if self.op == 'PLUS' else fneg(a, 64)
            yield 'value of the operation', And(kind == 'Rational', eq(v, w, 64) if kind == 'Rational' else False)
            return
        w = width(self.ty)
        x = trunc(a, 64, w)
        r = {'PLUS': lambda: x, 'NEGATE': lambda: neg(x, w), 'BIT_NOT': lambda: bnot(x, w), 'LOGICAL_NOT': lambda: b2i(eq(x, 0, w), w)}[self.op]()
        yield 'value of the operation', intres(kind, v, w, r)


class Cast(Eval):
    def __init__(self, src, dst, cat='NUMERICAL'):
        self.src, self.dst, self.cat = src, dst, cat
        self.name = 'compile-time cast (%s) of %s to %s' % (cat, src, dst)

    def setup(self, Xc):
        c = self.start(Xc)
        self.o('mem', 64)
        self.sizes = {}
        l = self.lit('value', self.src if self.src != 'ref' else Xc.choice('value', ['null', 'p:Int:mem:0']))
        n = self.node('X', 'ExprTypeCast', 't' + self.dst)
        Xc.put(n + fld('ExprTypeCast', 'category'), 4, K()['EXPR_CAST_' + self.cat])
        Xc.put(n + fld('ExprTypeCast', 'value'), 8, l)
        return [c, n]

    def post(self, Xc, E0, F, ret):
        kind, rt, v = self.result(Xc, F, ret)
        a = self.vals['value']
        yield 'type of the result', rt == 't' + self.dst
        d = self.dst
        if self.cat == 'PTR_TO_BOOL':
            yield 'reference is not null', And(kind == 'Bool', eq(v, int(a.base is not None), 64) if kind == 'Bool' else False)
        elif self.cat == 'NULL_TO_PTR':
            yield 'null reference', kind == 'Nullptr'
        elif d in FLTS:
            x = a if self.src in FLTS else ite(self.flag, d2b(1.0), 0, 64) if self.src == 'Bool' else itofp(a, 64, 64, True)
            if d == 'Float':
                x = fpext(fptrunc(x))
            yield 'converted value', And(kind == 'Rational', eq(v, x, 64) if kind == 'Rational' else False)
        elif d == 'Bool':
            r = fcmp('une', a, 0, 64) if self.src in FLTS else ne(a, 0, 64)
            yield 'converted value', And(kind == 'Bool', eq(v, b2i(r, 64), 64) if kind == 'Bool' else False)
        else:
            w = dict(Char=8, Short=16, Int=32, Long=64, Enum=32)[d]
            if kind not in ('Character', 'Integer'):
                yield 'converted value', False
            elif self.src in FLTS:
                # defined only when the value fits in the type
                ok = [eq(v, sext(fptosi(a, 64, w), w, 64), 64), eq(v, sext(trunc(fptosi(a, 64, 64), 64, w), w, 64), 64)]
                yield 'converted value', Or(*ok)
            else:
                yield 'converted value', intres(kind, v, w, trunc(a, 64, w))
            yield 'kind of literal', kind == ('Character' if d == 'Char' else 'Integer')


class Load(Eval):
    def __init__(self, ty):
        self.ty = ty
        self.name = 'compile-time load of ' + ty

    def setup(self, Xc):
        c = self.start(Xc)
        Xc.obj('mem', 64)
        Xc.align['mem'] = 16
        self.sizes = {}
        p = self.address('value', self.ty, Ptr('mem', 16), SIZE[self.ty])
        n = self.node('X', 'ExprDereference', 't' + self.ty)
        Xc.put(n + fld('ExprDereference', 'value'), 8, p)
        self.setup_value(Xc)
        # a bool in memory is 0 or 1
        if self.ty == 'Bool':
            Xc.assume(ule(Xc.E.rd(Xc.st, Ptr('mem', 16), 1), 1, 8))
        return [c, n]

    def setup_value(self, Xc):
        pass

    def post(self, Xc, E0, F, ret):
        # the dereference of a pointer literal loads from it: pointers literals are produced by member access and indexing
        kind, rt, v = self.result(Xc, F, ret)
        t = self.ty
        yield 'type of the result', rt == 't' + t
        m = Xc.E.rd(E0.st if hasattr(E0, 'st') else E0, Ptr('mem', 16), SIZE[t])
        if t in FLTS:
            yield 'loaded value', And(kind == 'Rational', eq(v, m if t == 'Double' else fpext(m), 64) if kind == 'Rational' else False)
        else:
            yield 'loaded value', And(kind == {'Bool': 'Bool', 'Char': 'Character'}.get(t, 'Integer'), intres(kind, v, SIZE[t] * 8, m))


class LoadFn(Load):
    def __init__(self, ty):
        super().__init__(ty)
        self.name += ' (CreateLoad)'

    fn = 'CreateLoad(ExpressionEvalContext&, ExprBase*)'

    def setup(self, Xc):
        c, n = super().setup(Xc)
        return [c, Ptr('value.storage', 0)]


class Store(Eval):
    fn = 'CreateStore(ExpressionEvalContext&, ExprBase*, ExprBase*)'

    def __init__(self, ty):
        self.ty = ty
        self.name = 'compile-time store of ' + ty

    def setup(self, Xc):
        c = self.start(Xc)
        Xc.obj('mem', 64)
        Xc.align['mem'] = 16
        self.sizes = {}
        ty = {'CharI': 'Char', 'BoolI': 'Bool'}.get(self.ty, self.ty)
        p = self.node('target', 'ExprPointerLiteral', 'tr' + ty)
        Xc.put(p + fld('ExprPointerLiteral', 'ptr'), 8, Ptr('mem', 16))
        Xc.put(p + fld('ExprPointerLiteral', 'end'), 8, Ptr('mem', 16 + SIZE[ty]))
        self.t = ty
        return [c, p, self.lit('value', self.ty)]

    def post(self, Xc, E0, F, ret):
        n = SIZE[self.t]
        v = self.vals['value']
        want = fptrunc(v) if self.t == 'Float' else trunc(v, 64, 8 * n)
        yield 'the store succeeds', eq(trunc(ret, 1, 1) if isc(ret) else ret, 1, 1) if not isinstance(ret, bool) and not z3.is_bool(ret) else ret
        yield 'stored value', eq(Xc.E.rd(F, Ptr('mem', 16), n), want, 8 * n)
        yield 'nothing else changes', unchanged(Xc, E0, F, 'mem', None, (16, n))


class Index(Eval):
    """array element: the reference to element i, or an error exactly when i is not in [0, length)"""

    def __init__(self, kind, ity):
        self.kind, self.ity = kind, ity
        self.name = 'compile-time index (%s) by %s' % (kind, ity)

    def setup(self, Xc):
        c = self.start(Xc)
        es = 12
        self.es = es
        self.mktype('El', 'Class', es)
        self.sizes = {}
        n = 5
        self.n = n
        self.o('mem', es * n)
        i = self.lit('index', self.ity)
        if self.kind == 'sized':
            self.mktype('Arr', 'Array', es * n, 'El', n)
            p = self.address('value', 'Arr', Ptr('mem', 0), es * n)
        else:
            self.mktype('Arr', 'UnsizedArray', 12, 'El')
            st = self.o('slice', 16)
            Xc.put(st, 8, Ptr('mem', 0))
            Xc.put(st + 8, 4, n)
            p = self.node('value', 'ExprDereference', 'tArr')
            Xc.put(p + fld('ExprDereference', 'value'), 8, self.address('arr', 'Arr', st, 12))
        x = self.node('X', 'ExprArrayIndex', 'trEl')
        Xc.put(x + fld('ExprArrayIndex', 'value'), 8, p)
        Xc.put(x + fld('ExprArrayIndex', 'index'), 8, i)
        return [c, x]

    def post(self, Xc, E0, F, ret):
        i = self.vals['index']
        ok = ult(i, self.n, 64)
        kind, rt, v = self.result(Xc, F, ret)
        if kind == 'none':
            yield 'an index inside the array is not an error', Not(ok)
            yield 'an index outside the array is an error', self.critical(Xc, F)
            return
        yield 'an index outside the array is an error', ok
        yield 'type of the result', rt == 'trEl'
        if kind != 'Pointer':
            yield 'reference to the element', False
            return
        a, b = v
        a, b = Xc.E.pp(a), Xc.E.pp(b)
        off = mul(i, self.es, 64)
        yield 'reference to the element', And(a.base == 'mem', eq(a.off, off, 64))
        yield 'end of the element', And(b.base == 'mem', eq(b.off, add(off, self.es, 64), 64))


class Ternary(Eval):
    def __init__(self, ty):
        self.ty = ty
        self.name = 'compile-time conditional on ' + ty

    def setup(self, Xc):
        c = self.start(Xc)
        x = self.node('X', 'ExprConditional', 'tLong')
        for f, t in (('condition', self.ty), ('trueBlock', 'Long'), ('falseBlock', 'Long')):
            Xc.put(x + fld('ExprConditional', f), 8, self.lit(f, t))
        return [c, x]

    def post(self, Xc, E0, F, ret):
        kind, rt, v = self.result(Xc, F, ret)
        q = self.vals
        yield 'selected value', And(kind == 'Integer', eq(v, ite(ne(q['condition'], 0, 64), q['trueBlock'], q['falseBlock'], 64), 64) if kind == 'Integer' else False)


class Member(Eval):
    name = 'compile-time member access'

    def setup(self, Xc):
        c = self.start(Xc)
        self.mktype('Cl', 'Class', 64)
        self.o('mem', 64)
        p = self.address('value', 'Cl', Ptr('mem', 0), 64)
        self.off = Xc.int('offset', 32)
        Xc.assume(ule(self.off, 60, 32))
        v = self.o('member', K()['sizeof(VariableData)'])
        Xc.put(v + fld('VariableData', 'type'), 8, Ptr('tInt', 0))
        Xc.put(v + fld('VariableData', 'offset'), 4, self.off)
        h = self.o('handle', K()['sizeof(VariableHandle)'])
        Xc.put(h + fld('VariableHandle', 'variable'), 8, v)
        x = self.node('X', 'ExprMemberAccess', 'trInt')
        Xc.put(x + fld('ExprMemberAccess', 'value'), 8, p)
        Xc.put(x + fld('ExprMemberAccess', 'member'), 8, h)
        return [c, x]

    def post(self, Xc, E0, F, ret):
        kind, rt, v = self.result(Xc, F, ret)
        yield 'reference to the member', kind == 'Pointer' and rt == 'trInt'
        if kind == 'Pointer':
            a, b = Xc.E.pp(v[0]), Xc.E.pp(v[1])
            o = zext(self.off, 32, 64)
            yield 'address of the member', And(a.base == 'mem', eq(a.off, o, 64), b.base == 'mem', eq(b.off, add(o, 4, 64), 64))


class Modify(Eval):
    """++ and -- on a variable"""

    def __init__(self, pre, inc, ty):
        self.pre, self.inc, self.ty = pre, inc, ty
        self.name = 'compile-time %s-%s of %s' % ('pre' if pre else 'post', 'increment' if inc else 'decrement', ty)

    def setup(self, Xc):
        c = self.start(Xc)
        Xc.obj('mem', 64)
        Xc.align['mem'] = 16
        p = self.address('value', self.ty, Ptr('mem', 16), SIZE[self.ty])
        cls = 'ExprPreModify' if self.pre else 'ExprPostModify'
        x = self.node('X', cls, 't' + self.ty)
        Xc.put(x + fld(cls, 'value'), 8, p)
        Xc.put(x + fld(cls, 'isIncrement'), 1, int(self.inc))
        return [c, x]

    def post(self, Xc, E0, F, ret):
        kind, rt, v = self.result(Xc, F, ret)
        t = self.ty
        n = SIZE[t]
        m = Xc.E.rd(E0, Ptr('mem', 16), n)
        got = Xc.E.rd(F, Ptr('mem', 16), n)
        yield 'type of the result', rt == 't' + t
        yield 'nothing else changes', unchanged(Xc, E0, F, 'mem', None, (16, n))
        if t in FLTS:
            x = m if t == 'Double' else fpext(m)
            y = fop('fadd' if self.inc else 'fsub', [x, d2b(1.0)], 64)
            yield 'stored value', eq(got, y if t == 'Double' else fptrunc(y), 8 * n)
            yield 'value of the expression', And(kind == 'Rational', eq(v, y if self.pre else x, 64) if kind == 'Rational' else False)
            return
        w = width(t)
        x = sext(m, 8 * n, w)
        y = (add if self.inc else sub)(x, 1, w)
        yield 'stored value', eq(got, trunc(y, w, 8 * n), 8 * n)
        yield 'value of the expression', intres(kind, v, w, y if self.pre else x)


def contracts():
    out = []
    for op in BIN:
        for ty in ('Int', 'Long', 'Short', 'Char', 'CharI', 'Enum', 'Bool', 'Double', 'Float', 'ref', 'TypeID'):
            if op.startswith('LOGICAL'):
                if ty == 'Bool':
                    out += [Binary(op, 'Bool'), Binary(op, 'BoolI')]
                continue
            if op == 'POW' and ty in ('Short', 'Char', 'CharI', 'Enum'):
                continue     # the same code as for int
            if ty in FLTS and (op.startswith('BIT') or op in ('SHL', 'SHR')):
                continue
            if ty in ('ref', 'TypeID') and op not in ('EQUAL', 'NOT_EQUAL'):
                continue
            if ty == 'Bool' and op not in CMP and not op.startswith('BIT'):
                continue
            out.append(Binary(op, ty))
    for op in UN:
        for ty in ('Int', 'Long', 'Short', 'Char', 'CharI', 'Bool', 'BoolI', 'Double', 'Float', 'ref'):
            if ty in FLTS and op in ('BIT_NOT', 'LOGICAL_NOT') or ty in ('Bool', 'BoolI', 'ref') and op != 'LOGICAL_NOT':
                continue
            out.append(Unary(op, ty))
    for s in ('Bool', 'BoolI', 'Char', 'CharI', 'Short', 'Int', 'Long', 'Float', 'Double'):
        for d in ('Bool', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double'):
            out.append(Cast(s, d))
    out += [Cast('ref', 'Bool', 'PTR_TO_BOOL'), Cast('null', 'rInt', 'NULL_TO_PTR'), Cast('Enum', 'Int', 'REINTERPRET'), Cast('Int', 'Enum', 'REINTERPRET')]
    for t in ('Bool', 'Char', 'Short', 'Int', 'Long', 'Float', 'Double', 'Enum'):
        out += [LoadFn(t), Load(t), Store(t)]
    out += [Store('CharI'), Store('BoolI')]
    out += [Index(k, t) for k in ('sized', 'unsized') for t in ('Int', 'Long')]
    out += [Ternary(t) for t in ('Bool', 'Int', 'Long')] + [Member()]
    out += [Modify(p, i, t) for p in (True, False) for i in (True, False) for t in ('Char', 'Short', 'Int', 'Long', 'Float', 'Double')]
    return out


def prepare():
    K()
