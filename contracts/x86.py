"""Semantics of the x86-64 instructions used by the JIT (the reference machine).

Instructions are tuples (name, args...) with operands already decoded:
('r', n) general register (x86Reg number), ('x', n) xmm register, ('m', size, index, mult, base, disp), ('i', value, width), ('l', label).
Machine state: register files, memory (an engine State), flags.  All values may be symbolic."""
import os
import re
import z3
from vc.sym import *
from vc.mem import Unsupported
from vc import build
from .common import *

_k = None


def K():
    """enumerators of Instruction_X86.h (re-read from the header on every run)"""
    global _k
    if _k is None:
        src = open(os.path.join(build.REPO, 'NULLC', 'Instruction_X86.h'), newline='').read()
        ops = re.findall(r'\b(o_\w+)', src[src.index('enum x86Command'):src.index('struct CodeGenRegVmStateContext')])
        names = list(dict.fromkeys(ops)) + ['r' + r for r in 'NONE RAX RBX RCX RDX RSP RDI RBP RSI R8 R9 R10 R11 R12 R13 R14 R15 RegCount XmmRegCount XMM0 XMM1'.split()] + \
            ['sNONE', 'sBYTE', 'sWORD', 'sDWORD', 'sQWORD', 'LABEL_GLOBAL', 'JUMP_NEAR'] + ['x86Argument::' + t for t in 'argNone argNumber argReg argXmmReg argPtr argPtrLabel argLabel argImm64'.split()]
        _k = build.probe(['stdafx.h', 'Instruction_X86.h'], names)
        _k['ops'] = {}
        for o in dict.fromkeys(ops):
            _k['ops'].setdefault(_k[o], o[2:])
    return _k


R = lambda n: K()['r' + n]


def bits(size):
    k = K()
    return {k['sBYTE']: 8, k['sWORD']: 16, k['sDWORD']: 32, k['sQWORD']: 64}[size]


def ubound(t):
    """syntactic upper bound of a bit-vector term"""
    if isc(t):
        return t
    w = t.size()
    top = (1 << w) - 1
    k = t.decl().kind()
    if z3.is_bv_value(t):
        return t.as_long()
    if k == z3.Z3_OP_ZERO_EXT:
        return ubound(t.arg(0))
    if k == z3.Z3_OP_CONCAT:
        n, v = 0, 0
        for c in t.children():
            v = (v << c.size()) + ubound(c)
        return v
    if k == z3.Z3_OP_BMUL:
        v = 1
        for c in t.children():
            v *= ubound(c)
        return min(v, top)
    if k == z3.Z3_OP_BADD:
        return min(sum(ubound(c) for c in t.children()), top)
    if k == z3.Z3_OP_ITE:
        return max(ubound(t.arg(1)), ubound(t.arg(2)))
    return top


def zwiden(t, w):
    if isc(t):
        return t
    k = t.decl().kind()
    if k in (z3.Z3_OP_BMUL, z3.Z3_OP_BADD):
        f = mul if k == z3.Z3_OP_BMUL else add
        if (k == z3.Z3_OP_BADD and sum(ubound(c) for c in t.children()) < (1 << t.size())) or (k == z3.Z3_OP_BMUL and ubound(t) < (1 << t.size()) - 1):
            v = None
            for c in t.children():
                c = zwiden(c, w)
                v = c if v is None else f(v, c, w)
            return v
    if k == z3.Z3_OP_ITE:
        return ite(t.arg(0), zwiden(t.arg(1), w), zwiden(t.arg(2), w), w)
    return bv(t, t.size()) if t.size() == w else z3.ZeroExt(w - t.size(), t)


def swiden(t):
    """sign extension of a 32 bit displacement; without the sign when it is visibly not negative"""
    t = simp(t)
    if not isc(t) and ubound(t) < 1 << 31:
        return simp(zwiden(t, 64))
    return simp(sext(t, 32, 64))


class RegFile:
    """register file with possibly symbolic register numbers"""

    def __init__(self, E, tag, special=None):
        self.E = E
        self.log = ()
        self.special = dict(special or {})
        self.uf = UF('reg0:' + tag, [32], 64)
        self.tag = tag
        self.init = {}        # concrete mode: lazily chosen initial values

    def copy(self):
        o = RegFile.__new__(RegFile)
        o.__dict__.update(self.__dict__)
        o.special = dict(self.special)
        o.init = dict(self.init)
        return o

    def base(self, r):
        if isc(r) and r in self.special:
            return self.special[r]
        if self.E.concrete_map is not None:
            return self.init.get(r, 0xA5A5A5A500000000 | (r * 0x01010101))
        return self.uf(bv(r, 32))

    def get(self, r):
        acc = []
        n = self.log
        res = None
        while n:
            n, (i, v) = n
            if i is None:          # everything but the kept registers was clobbered
                keep, nb = v
                if isc(r) and r in keep:
                    continue
                res = nb.base(r)
                break
            if isc(r) and r in self.special and not isc(i):
                continue        # obligation of set: a register chosen by the allocator is never a fixed one
            c = eq(simp(r), simp(i), 32)
            c = simp(c) if not isinstance(c, bool) else c
            if c is True:
                res = v
                break
            if c is False:
                continue
            acc.append((c, v))
        if res is None:
            res = self.base(r)
        if acc and isinstance(res, Ptr):
            res = self.E.p2i(res)
        for c, v in reversed(acc):
            if isinstance(v, Ptr):
                v = self.E.p2i(v)
            res = ite(c, v, res, 64)
        return res

    def set(self, r, v):
        self.log = (self.log, (r, v))

    def clobber(self, keep):
        nb = RegFile(self.E, self.E_fresh())
        self.log = (self.log, (None, (frozenset(keep), nb)))

    cnt = [0]

    def E_fresh(self):
        RegFile.cnt[0] += 1
        return '%s!%d' % (self.tag, RegFile.cnt[0])


class M86:
    """machine state"""

    def __init__(self, E, S, special):
        self.E = E
        self.S = S
        self.g = RegFile(E, 'gpr', special)
        self.x = RegFile(E, 'xmm')
        self.flags = None
        self.hyps = ()
        self.events = ()
        self.notrack = False
        self.eximm = False       # RCX was last set by an immediate move
        self.unread = ()         # registers whose last write has not been read (may be dropped before calls)

    def copy(self):
        o = M86.__new__(M86)
        o.__dict__.update(self.__dict__)
        o.S = self.S.copy()
        o.g = self.g.copy()
        o.x = self.x.copy()
        return o

    # ---- registers
    def int(self, v):
        return self.E.p2i(v) if isinstance(v, Ptr) else v

    def r64(self, r):
        return self.int(self.g.get(r))

    def r(self, r, w):
        v = self.r64(r)
        return v if w == 64 else simp(extract(v, w - 1, 0))

    def wr(self, r, w, v):
        if w == 64:
            self.g.set(r, v)
        elif w == 32:
            self.g.set(r, simp(zext(v, 32, 64)))
        else:
            old = self.r64(r)
            self.g.set(r, simp(or_(and_(old, M(64) & ~M(w), 64), zext(v, w, 64), 64)))

    # ---- memory
    def ea(self, m):
        """address of a memory operand: a Ptr"""
        _, size, index, mult, base, disp = m
        none = R('NONE')
        p = self.g.get(base) if not (isc(base) and base == none) else 0
        d = swiden(disp)
        if not (isc(index) and index == none):
            d = simp(add(d, mul(self.r64(index), mult, 64), 64))
        if not isinstance(p, Ptr):
            return self.E.i2p(simp(add(p, d, 64)))
        return Ptr(p.base, simp(add(p.off, d, 64)))


def flagcond(fl, cc):
    """condition code over the last flag-setting instruction"""
    if fl is None:
        raise BadInst('flags are undefined')
    kind = fl[0]
    if kind == 'cmp':
        _, w, a, b = fl
    else:
        _, w, a = fl
        b = 0
    t = {'e': eq, 'z': eq, 'ne': ne, 'nz': ne, 'l': slt, 'ge': sge, 'le': sle, 'g': sgt, 'b': ult, 'c': ult, 'ae': uge, 'be': ule, 'a': ugt}
    if kind == 'res' and cc not in ('e', 'z', 'ne', 'nz'):
        raise BadInst('flags after arithmetic')
    return t[cc](a, b, w)


SSE = {'addsd': 'fadd', 'subsd': 'fsub', 'mulsd': 'fmul', 'divsd': 'fdiv'}
SSECMP = {'cmpeqsd': 'oeq', 'cmpltsd': 'olt', 'cmplesd': 'ole', 'cmpneqsd': 'une'}
ALU = {'add': add, 'sub': sub, 'and': and_, 'or': or_, 'xor': xor, 'imul': mul}


class BadInst(Exception):
    """the requested instruction does not exist or its meaning is undefined"""


class Leaf:
    def __init__(self, kind, m, info=None):
        self.kind, self.m, self.info = kind, m, info


LO = 0x10000
ALLOC = 'RAX RCX RDX RSI RDI R8 R9 R10 R11'.split()


class Run:
    """executes an instruction list from a machine state; collects the leaves"""

    def __init__(self, E, events, mem_ok=None, call=None, tracked=True, limit=4000):
        self.E = E
        self.ev = events
        self.mem_ok = mem_ok
        self.callf = call
        self.leaves = []
        self.obl = []            # (name, hyps, goal)
        self.tracked = tracked
        self.steps = 0
        self.limit = limit

    # every access goes through here; returns the address, forking off the null fault
    def access(self, m, p, n, write):
        if p.base is None:
            c = ult(p.off, LO, 64)
            c = simp(c) if not isinstance(c, bool) else c
            if c is not False:
                f = m.copy()
                f.hyps = f.hyps + (c,)
                self.leaves.append(Leaf('null', f))
                m.hyps = m.hyps + (Not(c),)
                if c is True:
                    return None
            if self.E.concrete_map is not None:
                self.obl.append(('memory is accessed only at the operand', m.hyps, False))
                return None
            if self.mem_ok is not None:
                self.obl.append(('memory is accessed only at the operand', m.hyps, self.mem_ok(p, n, write)))
        else:
            size = self.E.obj(m.S, p.base).size
            if size is not None:
                self.obl.append(('access stays inside its object', m.hyps, And(ule(n, size, 64), ule(p.off, simp(sub(size, n, 64)), 64))))
        return p

    def load(self, m, op, n=None):
        n = n or bits(op[1]) // 8
        for r in (op[2], op[4]):
            self.rd_mark(m, 'r', r)
        p = self.access(m, m.ea(op), n, False)
        if p is None:
            return None
        return self.special_read(m, p, n)

    def special_read(self, m, p, n):
        sp = getattr(m, 'slots', {})
        if p.base == 'regs' and isc(p.off) and (p.off, n) in sp:
            return sp[(p.off, n)]
        v = m.E.rd(m.S, p, n)
        return v

    def store(self, m, op, n, v):
        for r in (op[2], op[4]):
            self.rd_mark(m, 'r', r)
        p = self.access(m, m.ea(op), n, True)
        if p is None:
            return False
        m.E.wr(m.S, p, n, v)
        return True

    # ---- dead register write elimination of the emit layer: a write nobody read may have been dropped at a call, return or long jump
    def rd_mark(self, m, f, r):
        if not self.tracked:
            return
        m.unread = tuple(u for u in m.unread if not (u[0] == f and self.same(u[1], r)))

    def same(self, a, b):
        c = eq(simp(a), simp(b), 32)
        return (c if isinstance(c, bool) else simp(c)) is True

    def wr_mark(self, m, f, r):
        if self.tracked and not m.notrack:
            self.rd_mark(m, f, r)
            m.unread = m.unread + ((f, r),)

    def kill_unread(self, m):
        if not self.tracked or m.notrack:
            return
        for f, r in m.unread:
            RegFile.cnt[0] += 1
            g = UF('dropped%d' % RegFile.cnt[0], [32], 64)(z3.BitVecVal(0, 32)) if self.E.concrete_map is None else 0xDEADDEADDEADDEAD
            (m.g if f == 'r' else m.x).set(r, g)
        m.unread = ()

    def val(self, m, o, w):
        if o[0] == 'r':
            self.rd_mark(m, 'r', o[1])
            return m.r(o[1], w)
        if o[0] == 'x':
            self.rd_mark(m, 'x', o[1])
            return m.x.get(o[1]) if w == 64 else simp(extract(m.x.get(o[1]), w - 1, 0))
        if o[0] == 'i':
            return o[1] & M(w) if isc(o[1]) and o[2] >= w else (simp(sext(o[1], o[2], w)) if w > o[2] else simp(extract(o[1], w - 1, 0)))
        if o[0] == 'm':
            v = self.load(m, o)
            if v is None:
                return None
            ww = bits(o[1])
            if ww != w:
                raise BadInst('operand size')
            return m.int(v)
        raise Unsupported('operand')

    def setr(self, m, r, w, v):
        self.wr_mark(m, 'r', r)
        c = eq(simp(r), R('RCX'), 32)
        if not (isinstance(c, bool) and not c):
            m.eximm = False
        if not isc(simp(r)):
            self.obl.append(('only allocatable registers are overwritten', m.hyps, Or(*[eq(r, R(x), 32) for x in ALLOC])))
        m.wr(r, w, v)

    def setx(self, m, r, v):
        self.wr_mark(m, 'x', r)
        m.x.set(r, v)

    def run(self, m, i=0):
        m.notrack = False
        todo = [(m, 0)]
        while todo:
            m, i = todo.pop()
            while True:
                self.steps += 1
                if self.steps > self.limit:
                    raise Unsupported('instruction sequence does not terminate')
                if i >= len(self.ev):
                    self.leaves.append(Leaf('end', m))
                    break
                e = self.ev[i]
                try:
                    r = self.step(m, e)
                except BadInst as x:
                    self.obl.append(('requested instructions are valid (%s)' % x, m.hyps, False))
                    break
                if r is None:
                    i += 1
                    continue
                if r == 'stop':
                    break
                # conditional or unconditional transfer to a local label
                c, lab = r
                t = self.find_label(lab, i)
                if t is None:
                    f = m.copy()
                    f.hyps = f.hyps + (c,)
                    self.leaves.append(Leaf('jump', f, lab))
                else:
                    if t < i:
                        raise Unsupported('backward jump')
                    f = m.copy()
                    f.hyps = f.hyps + (c,)
                    if c is not False:
                        todo.append((f, t))
                if c is True:
                    break
                m.hyps = m.hyps + (Not(c),)
                i += 1
        return self.leaves

    def find_label(self, lab, i):
        for j, e in enumerate(self.ev):
            if e[0] == 'label' and self.same(e[1], lab):
                return j
        return None

    def step(self, m, e):
        k = K()
        if e[0] in ('comment', 'lock', 'memcache'):
            return None
        if e[0] == 'label':
            return None
        if e[0] == 'read':
            self.rd_mark(m, e[1][0], e[1][1])
            return None
        if e[0] == 'find':
            # contract of FindRegAtMemory: the register holds the value of that memory location
            _, cls, r, mem, w, extra = e
            p = m.ea(mem)
            v = self.special_read(m, p, w // 8)
            v = m.int(v)
            if w == 32 and cls == 'r':
                v = simp(zext(v, 32, 64))
            if self.E.concrete_map is not None:
                f = m.g if cls == 'r' else m.x
                if not f.log and r not in f.special and r not in f.init:
                    f.init[r] = v
                elif f.get(r) != v:
                    m.hyps = m.hyps + (False,)
                return None
            if p.base is None:
                # the location was accessed when the description was made
                m.hyps = m.hyps + (uge(p.off, LO, 64),)
            f = m.g if cls == 'r' else m.x
            h = eq(m.int(f.get(r)), v, 64)
            m.hyps = m.hyps + (h,)
            f.set(r, v)             # no effect under the hypothesis; keeps terms equal
            return None
        if e[0] == 'kill':
            fn = e[1]
            o = m.E.obj(m.S, 'regs')
            old = o
            m.S.mem['regs'] = o.write_block(0, 2048, lambda d: ite(fn(d), self.garb(e[2], d), old.byte(d), 8))
            return None
        if e[0] == 'move':
            # register copy by a helper under contract: of an int, the upper half is left open
            _, d, s_, t = e
            at = lambda r: Ptr('regs', simp(mul(zext(r, 8, 64), 8, 64)))
            v = m.E.rd(m.S, at(s_), 8)
            self.step(m, ('kill', lambda x: ne(m.E.obj(m.S, 'killE').byte(simp(lshr(x, 3, 64))), 0, 8), 'killE'))
            g = (m.E.fresh('loose', 64) if self.E.concrete_map is None else 0xCCCCCCCCCCCCCCCC)
            narrow = eq(t, self.rvcInt, 32)
            v = ite(narrow, or_(and_(g, M(64) & ~M(32), 64), and_(v, M(32), 64), 64), v, 64)
            m.E.wr(m.S, at(d), 8, v)
            return None
        if e[0] != 'op':
            raise Unsupported('event %s' % (e[0],))
        name, ops = e[1], e[2]
        if not isc(name):
            raise Unsupported('symbolic instruction')
        op = k['ops'].get(name)
        if op is None:
            raise Unsupported('instruction %d' % name)
        self.encodable(m, op, ops)
        return self.ins(m, op, ops, e)

    def encodable(self, m, op, ops):
        """the request is one of the forms the encoder is proved to write (precondition of contracts/encode.py)"""
        from . import encode
        ks = tuple(encode.kind(o) for o in ops)
        req = lambda c: c is True or self.obl.append(('the requested instruction form has an encoding (%s)' % op, m.hyps, c))
        if op in encode.COND or op == 'call':
            if ks == ('l',):
                return
        if op in ('sal', 'sar', 'sal64', 'sar64') and ks == ('r', 'r'):
            ks = ('r', 'c')
            req(eq(ops[1][1], R('RCX'), 32))
        if op.startswith('set') and ks == ('r',):
            ks = ('r4',)
            req(Or(*[eq(ops[0][1], R(x), 32) for x in ('RAX', 'RBX', 'RCX', 'RDX')]))
        if (op, ks) not in encode.supported():
            raise BadInst('%s %s has no encoding' % (op, ','.join(ks)))
        for o in ops:
            if o[0] == 'm':
                req(And(Not(eq(o[2], R('RSP'), 32)), Or(ne(o[4], R('NONE'), 32), ne(o[2], R('NONE'), 32)), Or(eq(o[2], R('NONE'), 32), *[eq(o[3], x, 32) for x in (1, 2, 4, 8)])))
        if ops and ops[-1][0] == 'i':
            v = ops[-1][1]
            if op in ('shl', 'sal', 'sar', 'sal64', 'sar64'):
                req(ult(v, 64 if op.endswith('64') else 32, 32))
            if ks[0] in ('m1', 'm2'):
                n = 128 if ks[0] == 'm1' else 32768
                req(And(sge(v, -n, 32), slt(v, n, 32)))

    def garb(self, tag, d):
        return UF('killed:%s' % tag, [64], 8)(bv(d, 64)) if self.E.concrete_map is None else 0xCC

    def ins(self, m, op, a, e):
        w = 32
        if op.endswith('64') and op not in ('cvttsd2si64', 'cvtsi2sd64'):
            op, w = op[:-2], 64
        kinds = ''.join(o[0] for o in a)
        if op == 'mov':
            if kinds == 'mr' or kinds == 'mi':
                sz = bits(a[0][1])
                if (w == 64) != (sz == 64):
                    raise BadInst('mov operand size')
                if kinds == 'mr':
                    self.rd_mark(m, 'r', a[1][1])
                    v = m.g.get(a[1][1])
                    if sz == 32 and not m.notrack:
                        self.obl.append(('a register stored as a 32 bit value has no upper half', m.hyps, eq(simp(extract(m.int(v), 63, 32)), 0, 32)))
                    if sz != 64:
                        v = simp(extract(m.int(v), sz - 1, 0))
                else:
                    v = self.val(m, a[1], sz)
                return None if self.store(m, a[0], sz // 8, v) else 'stop'
            if kinds == 'rm':
                if bits(a[1][1]) != w:
                    raise BadInst('mov operand size')
                v = self.load(m, a[1])
                if v is None:
                    return 'stop'
                if w == 32:
                    v = m.int(v)
            elif kinds == 'rr':
                self.rd_mark(m, 'r', a[1][1])
                v = m.g.get(a[1][1])
                if w == 32:
                    v = simp(extract(m.int(v), 31, 0))
            else:
                v = self.val(m, a[1], w)
                if w == 64 and kinds == 'ri' and self.E.concrete_map is None and a[1][2] == 64:
                    v = self.E.i2p(v) if not isc(v) else v
                    if isinstance(v, Ptr) and v.base is None:
                        v = v.off
            self.setr(m, a[0][1], w, v)
            if kinds == 'ri' and self.same(a[0][1], R('RCX')):
                m.eximm = True
            return None
        if op in ('movsx', 'movsxd'):
            v = self.load(m, a[1]) if a[1][0] == 'm' else None
            if v is None:
                if a[1][0] != 'm':
                    raise BadInst('movsx operand')
                return 'stop'
            sw = bits(a[1][1])
            dw = 32 if op == 'movsx' else 64
            self.setr(m, a[0][1], dw, simp(sext(m.int(v), sw, dw)))
            return None
        if op == 'lea':
            for r in (a[1][2], a[1][4]):
                self.rd_mark(m, 'r', r)
            p = m.ea(a[1])
            self.setr(m, a[0][1], 64, p if p.base else p.off)
            return None
        if op in ALU or op in ('cmp', 'test'):
            if op == 'xor' and kinds == 'rr' and self.same(a[0][1], a[1][1]):
                self.setr(m, a[0][1], w, 0)
                m.flags = ('cmp', w, 0, 0)
                return None
            if a[0][0] == 'm' and kinds[1] == 'm':
                raise BadInst('two memory operands')
            x = self.val(m, a[0], w)
            if x is None:
                return 'stop'
            y = self.val(m, a[1], w)
            if y is None:
                return 'stop'
            if op == 'cmp':
                m.flags = ('cmp', w, x, y)
                return None
            if op == 'test':
                m.flags = ('cmp', w, x if self.eqterm(x, y) else simp(and_(x, y, w)), 0)
                return None
            if op == 'imul' and not isc(x) and not isc(y):
                f = UF('umul%d' % w, [w, w], w)
                m.hyps = m.hyps + (f(bv(x, w), bv(y, w)) == f(bv(y, w), bv(x, w)),)
            v = simp(ALU[op](x, y, w))
            m.flags = ('cmp', w, x, y) if op == 'sub' else (('cmp', w, v, 0) if op in ('and', 'or', 'xor') else ('res', w, v) if op == 'add' else None)
            if a[0][0] == 'm':
                return None if self.store(m, a[0], w // 8, v) else 'stop'
            if op == 'add' and w == 64 and self.same(a[0][1], R('RSP')):
                m.events = m.events + (('rsp', y),)
            if op == 'add' and w == 64:
                # keep pointers symbolic
                p = m.g.get(a[0][1])
                if isinstance(p, Ptr):
                    v = p + y
            self.setr(m, a[0][1], w, v)
            return None
        if op in ('shl', 'sal', 'sar'):
            x = self.val(m, a[0], w)
            if a[1][0] == 'i':
                n = a[1][1]
            else:
                if not self.same(a[1][1], R('RCX')):
                    raise BadInst('shift count register')
                n = self.val(m, a[1], 32)
            n = simp(and_(n, w - 1, 32))
            f = ashr if op == 'sar' else shl
            v = simp(f(x, simp(zext(n, 32, w)) if w > 32 else n, w))
            m.flags = None
            self.setr(m, a[0][1], w, v)
            return None
        if op in ('neg', 'not'):
            x = self.val(m, a[0], w)
            v = simp(sub(0, x, w)) if op == 'neg' else simp(xor(x, M(w), w))
            if op == 'neg':
                m.flags = None
            self.setr(m, a[0][1], w, v)
            return None
        if op in ('cdq', 'cqo'):
            w = 32 if op == 'cdq' else 64
            self.rd_mark(m, 'r', R('RAX'))
            x = m.r(R('RAX'), w)
            self.setr(m, R('RDX'), w, simp(ashr(x, w - 1, w)))
            m.signext = (w, x)
            return None
        if op == 'idiv':
            d = self.val(m, a[0], w)
            if d is None:
                return 'stop'
            for r in ('RAX', 'RDX'):
                self.rd_mark(m, 'r', R(r))
            x = m.r(R('RAX'), w)
            hi = m.r(R('RDX'), w)
            # the dividend is the sign extension of rAX
            self.obl.append(('dividend is sign extended', m.hyps, eq(hi, simp(ashr(x, w - 1, w)), w)))
            z = eq(d, 0, w)
            ov = And(eq(d, M(w), w), eq(x, 1 << (w - 1), w))
            c = Or(z, ov)
            f = m.copy()
            f.hyps = f.hyps + (c,)
            self.leaves.append(Leaf('de', f))
            m.hyps = m.hyps + (Not(c),)
            if isinstance(c, bool) and c:
                return 'stop'
            q, r = sdiv(x, d, w), srem(x, d, w)
            m.flags = None
            self.setr(m, R('RAX'), w, q)
            self.setr(m, R('RDX'), w, r)
            return None
        if op.startswith('set') and op != 'set_tracking':
            c = flagcond(m.flags, op[3:])
            old = m.r64(a[0][1])
            self.rd_mark(m, 'r', a[0][1])
            v = simp(or_(and_(old, M(64) & ~0xff, 64), b2i(c, 64), 64))
            self.setr(m, a[0][1], 64, v)
            return None
        if op == 'set_tracking':
            m.notrack = not a[0][1]
            return None
        if op in ('movsd', 'movss'):
            n = 64 if op == 'movsd' else 32
            if kinds == 'xm':
                if bits(a[1][1]) != n:
                    raise BadInst('operand size')
                v = self.load(m, a[1])
                if v is None:
                    return 'stop'
                self.setx(m, a[0][1], m.int(v) if n == 64 else simp(zext(v, 32, 64)))
                return None
            if kinds == 'mx':
                if bits(a[0][1]) != n:
                    raise BadInst('operand size')
                v = self.val(m, a[1], n)
                return None if self.store(m, a[0], n // 8, v) else 'stop'
            if kinds == 'xx':
                v = self.val(m, a[1], 64)
                if n == 32:
                    v = simp(or_(and_(m.x.get(a[0][1]), M(64) & ~M(32), 64), and_(v, M(32), 64), 64))
                self.setx(m, a[0][1], v)
                return None
        if op == 'movd' and kinds == 'rx':
            self.setr(m, a[0][1], 32, self.val(m, a[1], 32))
            return None
        if op in ('cvtss2sd', 'cvtsd2ss', 'cvtsi2sd', 'cvtsi2sd64', 'sqrtsd') or op in SSE or op in SSECMP:
            need = 32 if op in ('cvtss2sd', 'cvtsi2sd') else 64
            y = self.val(m, a[1], need)
            if y is None:
                return 'stop'
            d = a[0][1]
            if op == 'cvtss2sd':
                v = fpext(y)
            elif op == 'cvtsd2ss':
                v = simp(or_(and_(m.x.get(d), M(64) & ~M(32), 64), zext(fptrunc(y), 32, 64), 64))
            elif op.startswith('cvtsi2sd'):
                v = itofp(y, need, 64, True)
            elif op == 'sqrtsd':
                from vc import builtins
                v = builtins.LIB['sqrt'](None, None, [y], None)
            else:
                x = self.val(m, a[0], 64)
                if op in ('addsd', 'mulsd') and not (isc(x) and isc(y)):
                    # commutative up to the payload of a NaN
                    f = UF(SSE[op] + '64', [64, 64], 64)
                    m.hyps = m.hyps + (f(bv(x, 64), bv(y, 64)) == f(bv(y, 64), bv(x, 64)),)
                if op in ('cmpeqsd', 'cmpneqsd') and not (isc(x) and isc(y)):
                    f = UF('feq64', [64, 64], 1)
                    m.hyps = m.hyps + (f(bv(x, 64), bv(y, 64)) == f(bv(y, 64), bv(x, 64)),)
                v = fop(SSE[op], [x, y], 64) if op in SSE else ite(fcmp(SSECMP[op], x, y, 64), M(64), 0, 64)
            self.setx(m, d, v)
            return None
        if op in ('cvttsd2si', 'cvttsd2si64'):
            y = self.val(m, a[1], 64)
            if y is None:
                return 'stop'
            w = 64 if op.endswith('64') else 32
            self.setr(m, a[0][1], w, fptosi(y, 64, w))
            return None
        if op.startswith('rep_'):
            return self.rep(m, op[4:])
        if op == 'jmp':
            self.jumpkill(m, e)
            return (True, a[0][1])
        if op[0] == 'j':
            c = flagcond(m.flags, op[1:])
            c = simp(c) if not isinstance(c, bool) else c
            self.jumpkill(m, e)
            return (c, a[0][1])
        if op == 'call':
            if a[0][0] == 'm':
                v = self.load(m, a[0])
                if v is None:
                    return 'stop'
            else:
                self.rd_mark(m, 'r', a[0][1])
                v = m.g.get(a[0][1])
            self.kill_unread(m)
            if self.callf is None:
                raise Unsupported('call')
            return self.callf(self, m, v)
        if op == 'ret':
            self.rd_mark(m, 'r', R('RAX'))
            self.rd_mark(m, 'r', R('RDX'))
            self.kill_unread(m)
            self.leaves.append(Leaf('ret', m))
            return 'stop'
        if op == 'pop':
            m.events = m.events + (('pop', a[0][1]),)
            self.setr(m, a[0][1], 64, m.r64(a[0][1]))
            return None
        raise Unsupported('instruction ' + op + ' ' + kinds)

    def eqterm(self, x, y):
        return x is y or (not isc(x) and not isc(y) and x.eq(y))

    def jumpkill(self, m, e):
        if len(e) > 3 and e[3]:         # long jump
            self.kill_unread(m)

    def rep(self, m, k):
        cx, di = R('RCX'), R('RDI')
        n = m.r64(cx)
        src = 'RSI' if k.startswith('movs') else 'RAX'
        self.obl.append(('repeat count is an immediate', m.hyps, m.eximm))
        for r in ('RCX', 'RDI', src):
            self.rd_mark(m, 'r', R(r))
        sz = {'b': 1, 'w': 2, 'd': 4, 'q': 8}[k[-1]]
        total = simp(mul(n, sz, 64))
        d = m.g.get(di)
        d = d if isinstance(d, Ptr) else self.E.i2p(d)
        nz = ne(total, 0, 64)
        nz = nz if isinstance(nz, bool) else simp(nz)
        ptrs = [(d, True)]
        if k.startswith('movs'):
            s = m.g.get(R('RSI'))
            s = s if isinstance(s, Ptr) else self.E.i2p(s)
            ptrs = [(s, False)] + ptrs
        for p, write in ptrs:
            if p.base is None:
                c = And(nz, ult(p.off, LO, 64))
                f = m.copy()
                f.hyps = f.hyps + (c,)
                self.leaves.append(Leaf('null', f))
                m.hyps = m.hyps + (Not(c),)
                if isinstance(c, bool) and c:
                    return 'stop'
                if self.E.concrete_map is None and self.mem_ok is not None:
                    self.obl.append(('memory is accessed only at the operand', m.hyps, Or(Not(nz), self.mem_ok(p, total, write))))
            else:
                size = self.E.obj(m.S, p.base).size
                if size is not None:
                    self.obl.append(('access stays inside its object', m.hyps, Or(Not(nz), And(ule(total, size, 64), ule(p.off, simp(sub(size, total, 64)), 64)))))
        E = self.E
        if self.E.concrete_map is not None and not nz:
            pass
        else:
            base = d.base or E.flat
            o = E.obj(m.S, base)
            if k.startswith('movs'):
                so = E.obj(m.S, s.base or E.flat)
                m.S.mem[base] = o.write_block(d.off, total, lambda x: so.byte(simp(add(s.off, x, 64))))
            else:
                val = m.r64(R('RAX'))
                w = sz * 8
                v = simp(extract(val, w - 1, 0))

                def fn(x):
                    if sz == 1:
                        return v
                    r = urem(x, sz, 64)
                    return extract(lshr(v, trunc(mul(r, 8, 64), 64, w) if w < 64 else mul(r, 8, 64), w), 7, 0)
                m.S.mem[base] = o.write_block(d.off, total, fn)
        for r in ([cx, di, R('RSI')] if k.startswith('movs') else [cx, di]):
            RegFile.cnt[0] += 1
            m.g.set(r, UF('rep%d' % RegFile.cnt[0], [32], 64)(z3.BitVecVal(0, 32)) if E.concrete_map is None else 0xDEAD0000)
        return None
