"""Optimiser rewrites of the SSA form: constant propagation, peephole rewriting, dead code (InstructionTreeVm.cpp)."""
from .common import *
from . import vmgraph
from .vmgraph import *

TUS = ['InstructionTreeVm.cpp', 'InstructionTreeVmCommon.cpp', SHIM]
STUBS = {'vc_alloc': alloc_stub, 'vc_dealloc': dealloc_stub}
IR_INIT = '_GLOBAL__sub_I_InstructionTreeVm.cpp'


class Opt(Contract):
    """one rewriting step preserves the meaning of the rewritten instruction and of its user"""
    tus = TUS
    exact = False
    user = 'RETURN'
    user_type = VOID
    timeout = 30000

    def stubs(self, Xc):
        return dict(STUBS)

    def start(self, Xc):
        E = Xc.E
        if not E.concrete_map and not Xc.concrete:
            # the type descriptors are initialised dynamically
            r = E.call(Xc.st, IR_INIT, [])
            if len(r) != 1:
                raise Unsupported('static initialisation')
            Xc.st = r[0][0]
        return Graph(Xc, self)

    def finish(self, Xc, g, x='X'):
        if self.user and x in g.use and not getattr(self, 'nouser', False):
            if self.user == 'PHI':
                g.block('PB')
                g.inst('U', 'PHI', g_type(g, x), [x, 'PB'], side=False)
                g.use['U'].append('outside')
            elif self.user == 'LOAD_INT':
                g.const('U.off', INT)
                Xc.assume(ult(g.terms['U.off'], 1 << 28, 32))
                g.inst('U', 'LOAD_INT', INT, [x, 'U.off'])
                g.use['U'].append('outside')
            else:
                g.inst('U', self.user, self.user_type, [x], side=True)
        g.finish()
        self.g = g
        e0 = Ev(Xc, g, Xc.st, self.exact)
        self.roots = [n for n in ('X', 'U') if n in g.use]
        self.want = []
        for n in self.roots:
            self.want.append(e0.effect(Ptr(n, 0)))
        self.traps = Or(False, *e0.traps)
        # executions in which the shift counts are out of range or an offset overflows have no defined meaning
        return [g.ctx, g.module, Ptr('X', 0)]

    def post(self, Xc, E0, F, ret):
        ev = Ev(Xc, self.g, F, self.exact)
        for n, w in zip(self.roots, self.want):
            ev.traps = []
            if n == 'X' and self.value_of_x is False:
                continue
            got = ev.effect(Ptr(n, 0))
            tr = Or(False, *ev.traps)
            yield '%s means the same' % {'X': 'the instruction', 'U': 'the user of the instruction'}[n], Implies(Not(self.traps), And(same_effect(Xc, w, got), Not(tr)))
            yield 'an operation that stops the program is not folded away (%s)' % n, Implies(And(self.traps, self.mentions(n)), tr)
        yield 'use lists are consistent', uses_consistent(ev, self.roots)

    value_of_x = True

    def mentions(self, n):
        return True


def g_type(g, x):
    return g.types[x]


class Fold(Opt):
    fn = 'RunConstantPropagation(ExpressionContext&, VmModule*, VmValue*, bool)'

    def __init__(self, cmd, t, ats, user='RETURN', nested=False):
        self.cmd, self.t, self.ats, self.user, self.nested = cmd, t, ats, user, nested
        self.name = 'constant propagation of %s %s(%s) used by %s%s' % (t, cmd, ', '.join(ats), user, ' (nested)' if nested else '')
        if user == 'CALL':
            self.user_type = INT

    def setup(self, Xc):
        g = self.start(Xc)
        names = []
        for i, t in enumerate(self.ats):
            n = 'a%d' % i
            if t.startswith('ptr:'):
                g.container(t[4:])
                g.const(n, PTR_, container=t[4:])
                g.use[n].append('outside')
            elif t.startswith('x:'):
                _, cmd, rt, at = t.split(':')
                g.const(n + 'c', at)
                g.inst(n, cmd, rt, [n + 'c'])
            else:
                g.const(n, t)
            names.append(n)
        v = lambda i: g.terms[names[i]]
        if self.cmd in ('SHL', 'SHR'):
            w = W[self.t]
            Xc.assume(ult(v(1), w, w))
        if any(a.startswith('ptr:') for a in self.ats):
            # a pointer to a variable points at a member of it: offsets are not negative
            for i, t in enumerate(self.ats):
                if (t == INT and not (self.cmd == 'INDEX' and i == 3)) or t.startswith('ptr'):
                    Xc.assume(ult(v(i), 1 << 28, 32))
        elif self.t == PTR_:
            for i, t in enumerate(self.ats):
                if t == INT or t.startswith('ptr'):
                    Xc.assume(And(sle(M(32) - (1 << 28), v(i), 32), slt(v(i), 1 << 28, 32)))
        if self.cmd == 'INDEX':
            Xc.assume(And(ule(v(1), 65535, 32), ule(v(0), 4096, 32)))
        g.types = {'X': self.t}
        g.inst('X', self.cmd, self.t, names)
        return self.finish(Xc, g) + [self.nested]

    def post(self, Xc, E0, F, ret):
        yield from super().post(Xc, E0, F, ret)


class FoldFloat(Fold):
    """conversion to float keeps the converted bits when it is folded into a call"""

    def post(self, Xc, E0, F, ret):
        yield from super().post(Xc, E0, F, ret)
        ev = Ev(Xc, self.g, F)
        a = ev.args(Ptr('U', 0))[0]
        if ev.isconst(a):
            yield 'the constant is marked as a float', ne(ev.rd(a, 'VmConstant', 'isFloat', 1), 0, 8)


class Peep(Opt):
    fn = 'RunPeepholeOptimizations(ExpressionContext&, VmModule*, VmValue*)'
    exact = True

    def __init__(self, cmd, t, args, user='RETURN'):
        self.cmd, self.t, self.ats, self.user = cmd, t, args, user
        self.name = 'peephole %s %s(%s)%s' % (t, cmd, ', '.join(args), '' if user == 'RETURN' else ' used by ' + str(user))
        if user is None:
            self.nouser = True

    def operand(self, Xc, g, n, t):
        """c:type constant, v:type opaque, =N same as operand N, (CMD type args)"""
        if t[0] == '=':
            return 'a' + t[1:]
        if t[0] == 'c':
            g.const(n, t[2:])
            if t[2:] == INT and (self.t in (PTR_, VOID, 'mem') or self.cmd.startswith('LOAD_') or self.cmd == 'EXTRACT') and self.cmd not in ('JUMP_Z', 'JUMP_NZ'):
                Xc.assume(ult(g.terms[n], 1 << 28, 32) if self.cmd == 'EXTRACT' else And(sle(M(32) - (1 << 28), g.terms[n], 32), slt(g.terms[n], 1 << 28, 32)))
            return n
        if t[0] == '#':
            return g.const(n, INT, int(t[1:]))
        if t[0] == 'v':
            return g.opaque(n, t[2:])
        if t[0] == 'b':
            return g.block(n)
        if t.startswith('ptr:'):
            g.container(t[4:])
            g.const(n, PTR_, container=t[4:])
            g.use[n].append('outside')
            if self.cmd == 'EXTRACT':
                Xc.assume(ult(g.terms[n], 1 << 28, 32))
            return n
        # nested instruction
        parts = split(t[1:-1])
        ops = [self.operand(Xc, g, '%s_%d' % (n, i), p) for i, p in enumerate(parts[2:])]
        g.inst(n, parts[0], parts[1], ops)
        return n

    def setup(self, Xc):
        g = self.start(Xc)
        names = [self.operand(Xc, g, 'a%d' % i, t) for i, t in enumerate(self.ats)]
        if self.cmd in ('SHL', 'SHR'):
            w = W[self.t]
        g.types = {'X': self.t}
        g.inst('X', self.cmd, VOID if self.t == 'mem' else self.t, names, side=self.user is None)
        return self.finish(Xc, g)


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == ' ' and d == 0:
            out.append(cur)
            cur = ''
            continue
        d += (ch == '(') - (ch == ')')
        cur += ch
    return out + [cur]


class DeadJump(Peep):
    fn = 'RunDeadCodeElimiation(ExpressionContext&, VmModule*, VmInstruction*)'

    def __init__(self, cmd, args):
        super().__init__(cmd, VOID, args, None)
        self.name = 'dead code ' + self.name[9:]


class DeadInst(Opt):
    """an instruction is removed exactly when nothing uses it and it has no effect; its neighbours stay linked"""
    fn = 'RunDeadCodeElimiation(ExpressionContext&, VmModule*, VmInstruction*)'
    name = 'dead code elimination of one instruction'

    def setup(self, Xc):
        k = K()
        g = self.start(Xc)
        used = Xc.choice('used', [False, True])
        first = Xc.choice('first', [False, True])
        last = Xc.choice('last', [False, True])
        g.opaque('v', INT)
        g.inst('X', 'ADD', INT, ['v', 'v'])
        g.block('B')
        if used:
            g.inst('U', 'RETURN', VOID, ['X'], side=True)
        seq = ([] if first else ['P']) + ['X'] + ([] if last else ['N'])
        for n in seq:
            if n != 'X':
                g.inst(n, 'CALL', VOID, [], side=True)
        g.finish()
        o = lambda f: fld('VmInstruction', f)
        for i, n in enumerate(seq):
            Xc.put(Ptr(n, o('parent')), 8, Ptr('B', 0))
            if i:
                Xc.put(Ptr(n, o('prevSibling')), 8, Ptr(seq[i - 1], 0))
            if i + 1 < len(seq):
                Xc.put(Ptr(n, o('nextSibling')), 8, Ptr(seq[i + 1], 0))
        Xc.put(Ptr('B', fld('VmBlock', 'firstInstruction')), 8, Ptr(seq[0], 0))
        Xc.put(Ptr('B', fld('VmBlock', 'lastInstruction')), 8, Ptr(seq[-1], 0))
        self.side, self.can = Xc.bool('sideEffects'), Xc.bool('canBeRemoved')
        Xc.put(Ptr('X', fld('VmValue', 'hasSideEffects')), 1, b2i(self.side, 8))
        Xc.put(Ptr('X', fld('VmValue', 'canBeRemoved')), 1, b2i(self.can, 8))
        self.g, self.seq, self.used = g, seq, used
        return [g.ctx, g.module, Ptr('X', 0)]

    def post(self, Xc, E0, F, ret):
        E = Xc.E
        ev = Ev(Xc, self.g, F)
        p = lambda f: E.pp(E.rd(F, Ptr('B', fld('VmBlock', f)), 8)).base
        nx = lambda n, f: E.pp(E.rd(F, Ptr(n, fld('VmInstruction', f)), 8)).base
        chain, cur = [], p('firstInstruction')
        while cur is not None and len(chain) < 5:
            chain.append(cur)
            cur = nx(cur, 'nextSibling')
        back, cur = [], p('lastInstruction')
        while cur is not None and len(back) < 5:
            back.append(cur)
            cur = nx(cur, 'prevSibling')
        yield 'the block stays a doubly linked list', back == chain[::-1]
        rest = [n for n in self.seq if n != 'X']
        gone = chain == rest
        yield 'no other instruction is removed', gone or chain == self.seq
        dead = And(not self.used, Not(self.side), self.can)
        yield 'an instruction that is used or has an effect is kept', Implies(Not(dead), not gone)
        if gone:
            yield 'the removed instruction is detached', nx('X', 'parent') is None
            yield 'a removed instruction no longer uses its operands', 'X' not in [u.base for u in ev.users(Ptr('v', 0))]
        else:
            yield 'use lists are consistent', uses_consistent(ev, ['X'])


def contracts():
    out = []
    ND = (INT, LONG, DOUBLE)
    for t in ND:
        out.append(Fold('LOAD_IMMEDIATE', t, [t]))
        for c in ('ADD', 'SUB', 'MUL', 'DIV'):
            out.append(Fold(c, t, [t, t]))
        for c in ('LESS', 'GREATER', 'LESS_EQUAL', 'GREATER_EQUAL', 'EQUAL', 'NOT_EQUAL'):
            out.append(Fold(c, INT, [t, t]))
        out.append(Fold('NEG', t, [t]))
    for t in (INT, LONG):
        for c in ('MOD', 'SHL', 'SHR', 'BIT_AND', 'BIT_OR', 'BIT_XOR'):
            out.append(Fold(c, t, [t, t]))
        out.append(Fold('BIT_NOT', t, [t]))
        out.append(Fold('LOG_NOT', INT, [t]))
        out.append(Fold('POW', t, [t, t]))
    for c, a, b in (('DOUBLE_TO_INT', DOUBLE, INT), ('DOUBLE_TO_LONG', DOUBLE, LONG), ('INT_TO_DOUBLE', INT, DOUBLE), ('LONG_TO_DOUBLE', LONG, DOUBLE), ('INT_TO_LONG', INT, LONG), ('LONG_TO_INT', LONG, INT)):
        out.append(Fold(c, b, [a]))
    out.append(FoldFloat('DOUBLE_TO_FLOAT', INT, [DOUBLE], 'CALL'))
    out.append(Fold('DOUBLE_TO_FLOAT', INT, [DOUBLE]))
    out.append(Fold('POW', DOUBLE, [DOUBLE, DOUBLE]))
    out.append(Fold('MOD', DOUBLE, [DOUBLE, DOUBLE]))
    out.append(Fold('ADD', INT, [INT, INT], 'PHI'))
    out.append(Fold('ADD', LONG, ['x:INT_TO_LONG:long:int', LONG], nested=True))
    out.append(Fold('SUB', INT, [INT, 'x:LONG_TO_INT:int:long'], nested=True))
    out.append(Fold('MUL', DOUBLE, ['x:INT_TO_DOUBLE:double:int', 'x:LONG_TO_DOUBLE:double:long'], nested=True))
    for a, b in (('ptr:C', INT), (INT, 'ptr:C'), (PTR_, INT)):
        for u in ('RETURN', 'LOAD_INT'):
            out.append(Fold('ADD', PTR_, [a, b], u))
    out.append(Fold('INDEX', PTR_, [INT, INT, 'ptr:C', INT]))
    # peephole
    for t in ND:
        for c in ('ADD', 'SUB', 'MUL', 'DIV'):
            for a in (['c:' + t, 'v:' + t], ['v:' + t, 'c:' + t], ['v:' + t, 'v:' + t]):
                if t == DOUBLE and (c == 'DIV' or a[0] == a[1]):
                    continue
                out.append(Peep(c, t, a))
        for c in ('LESS', 'GREATER', 'LESS_EQUAL', 'GREATER_EQUAL', 'EQUAL', 'NOT_EQUAL'):
            for a in (['v:' + t, '=0'], ['v:' + t, 'c:' + t]):
                out.append(Peep(c, INT, a))
    for t in (INT, LONG):
        for c in ('SHL', 'SHR', 'BIT_AND', 'BIT_OR', 'BIT_XOR', 'MOD'):
            for a in (['c:' + t, 'v:' + t], ['v:' + t, 'c:' + t], ['v:' + t, '=0']):
                out.append(Peep(c, t, a))
    for a in (['v:ptr', 'c:int'], ['c:int', 'v:ptr'], ['v:ptr', 'v:int']):
        out.append(Peep('ADD', PTR_, a))
    adds = ['(ADD ptr v:ptr c:int)', '(ADD ptr c:int v:ptr)', '(ADD ptr v:ptr v:int)', 'v:ptr']
    for a in adds:
        for c, t in (('LOAD_BYTE', INT), ('LOAD_SHORT', INT), ('LOAD_INT', INT), ('LOAD_LONG', LONG), ('LOAD_DOUBLE', DOUBLE), ('LOAD_FLOAT', DOUBLE)):
            if t == INT and c != 'LOAD_INT' and a != adds[0]:
                continue
            out.append(PeepMem(c, t, [a, 'c:int']))
        for c, t in (('STORE_BYTE', INT), ('STORE_SHORT', INT), ('STORE_INT', INT), ('STORE_LONG', LONG), ('STORE_DOUBLE', DOUBLE), ('STORE_FLOAT', DOUBLE)):
            if c != 'STORE_INT' and a != adds[0]:
                continue
            out.append(PeepMem(c, 'mem', [a, 'c:int', 'v:' + t], None))
        for b in adds:
            out.append(PeepMem('MEM_COPY', 'mem', [a, 'c:int', b, 'c:int', 'c:int'], None))
    for j in ('JUMP_Z', 'JUMP_NZ'):
        for c in ('EQUAL', 'NOT_EQUAL'):
            for x, y in (('c:int', 'v:int'), ('v:int', 'c:int'), ('c:long', 'v:long'), ('v:long', 'c:long'), ('v:double', 'c:double')):
                out.append(Peep(j, VOID, ['(%s int %s %s)' % (c, x, y), 'b', 'b'], None))
        out.append(Peep(j, VOID, ['v:int', 'b', 'b'], None))
        out.append(Peep(j, VOID, ['(LESS int v:int c:int)', 'b', 'b'], None))
        out.append(DeadJump(j, ['c:int', 'b', 'b']))
        out.append(DeadJump(j, ['v:int', 'b', 'b']))
    out.append(Peep('CONVERT_POINTER', PTR_, ['(CONSTRUCT autoref (TYPE_ID int c:int) v:ptr)', '(TYPE_ID int c:int)']))
    out.append(DeadInst())
    for t in ND:
        for a in (['v:ptr', 'c:int'], ['ptr:C', '#0']):
            out.append(Peep('EXTRACT', t, ['(LOAD_STRUCT struct %s)' % ' '.join(a), 'c:int']))
    for i in ('v:int', 'c:int'):
        for a in ('v:ptr', 'ptr:C'):
            out.append(Peep('INDEX_UNSIZED', PTR_, ['c:int', '(ARRAY arrayref %s c:int)' % a, i]))
            out.append(Peep('INDEX_UNSIZED', PTR_, ['c:int', '(ARRAY arrayref %s v:int)' % a, i]))
    return out


class PeepMem(Peep):
    pass


def prepare():
    K()
