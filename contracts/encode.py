"""Machine code: the bytes written for an instruction of the back end denote exactly that instruction.

x86TranslateInstructionList / x86SatisfyJumps (Translator_X86.cpp) are executed with one instruction of every form the back end requests - concrete operation and operand kinds,
arbitrary registers, displacements, immediates - and the bytes they write are decoded by the decoder below, which is written from the Intel encoding rules (prefixes, REX, opcode map,
ModRM, SIB) and shares nothing with the code.  The decoded operation, operand size, operands and length have to be the requested ones."""
import itertools
import os
import z3
from vc.sym import *
from vc import build
from .common import *
from . import x86

SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shim_enc.cpp')
MAXLEN = 40
_k = None


def K():
    global _k
    if _k is None:
        ex = ['sizeof(x86Instruction)', 'sizeof(x86Argument)'] + ['OFF(x86Instruction,%s)' % f for f in 'name instID argA argB labelID'.split()] + \
            ['OFF(x86Argument,%s)' % f for f in 'type reg num xmmArg labelID ptrSize imm64Arg ptrBase ptrIndex ptrMult ptrNum'.split()] + \
            ['OFF(FastVector<int>,data)', 'OFF(FastVector<int>,max)', 'OFF(FastVector<int>,count)', 'sizeof(FastVector<int>)']
        _k = build.probe(['stdafx.h', 'Array.h', 'Instruction_X86.h'], ex)
        k = x86.K()
        _k['code'] = {n: v for v, n in k['ops'].items()}
        _k['size'] = {1: k['sBYTE'], 2: k['sWORD'], 3: k['sDWORD'], 4: k['sQWORD']}
        for t in 'argNone argNumber argReg argXmmReg argPtr argLabel argImm64'.split():
            _k[t] = k['x86Argument::' + t]
        _k['near'] = k['JUMP_NEAR']
        # number of the hardware register behind each enumerator
        hw = 'RAX RCX RDX RBX RSP RBP RSI RDI R8 R9 R10 R11 R12 R13 R14 R15'.split()
        _k['hw'] = {k['r' + n]: i for i, n in enumerate(hw)}
    return _k


# ------------------------------------------------------------------ decoder
ALU = ['add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'cmp']
CC = ['o', 'no', 'b', 'ae', 'e', 'ne', 'be', 'a', 's', 'ns', 'p', 'np', 'l', 'ge', 'le', 'g']
SHIFT = {4: 'shl', 5: 'shr', 7: 'sar'}
F7 = {2: 'not', 3: 'neg', 4: 'mul1', 5: 'imul1', 6: 'div', 7: 'idiv'}


class Dec:
    """alternatives (guard, instruction, length) denoted by a byte string; instruction = (name, operand width, operands)"""

    def __init__(self, bs):
        self.b = [simp(x) for x in bs]
        self.out = []

    def fld(self, i, hi, lo):
        return simp(and_(lshr(self.b[i], lo, 8), (1 << (hi - lo + 1)) - 1, 8))

    def split(self, v, vals):
        """possible values of a term with their guards"""
        if isc(v):
            return [(True, v)] if v in vals else []
        return [(eq(v, x, 8), x) for x in vals]

    def imm(self, p, n):
        v = self.b[p]
        for i in range(1, n):
            v = or_(zext(v, 8 * i, 8 * i + 8), shl(zext(self.b[p + i], 8, 8 * i + 8), 8 * i, 8 * i + 8), 8 * i + 8)
        return simp(v)

    def simm(self, p, n):
        v = self.imm(p, n)
        return v if n == 8 else simp(sext(v, 8 * n, 64))

    def decode(self):
        p = 0
        pre = []
        while isc(self.b[p]) and self.b[p] in (0x66, 0xF2, 0xF3):
            pre.append(self.b[p])
            p += 1
        rex = None
        if isc(self.b[p]):
            if self.b[p] >> 4 == 4:
                rex = self.b[p]
                p += 1
            self.opcode(True, pre, rex, p)
        else:
            g = eq(and_(self.b[p], 0xF0, 8), 0x40, 8)
            self.opcode(g, pre, self.b[p], p + 1)
            self.opcode(Not(g), pre, None, p)
        return self.out

    def opcode(self, g, pre, rex, p):
        self.rex = rex
        self.pre = tuple(pre)
        bit = lambda n: 0 if rex is None else simp(and_(lshr(rex, n, 8), 1, 8))
        self.W, self.Rx, self.Xx, self.Bx = bit(3), bit(2), bit(1), bit(0)
        for gw, w in self.split(self.W, (0, 1)):
            self.w = 64 if w else 16 if 0x66 in pre else 32
            g2 = And(g, gw)
            if isc(self.b[p]):
                self.op1(g2, self.b[p], p + 1)
            else:
                lo3 = self.fld(p, 2, 0)
                for base in (0xB8, 0x50, 0x58):
                    self.op1(And(g2, eq(and_(self.b[p], 0xF8, 8), base, 8)), base, p + 1, lo3)

    def emit(self, g, ln, name, w, *ops):
        self.out.append((g, (name, w) + ops, ln))

    def reg(self, lo, ext, w=None):
        n = simp(or_(lo, shl(ext, 3, 8), 8))
        if w == 8 and self.rex is None:
            return ('r8', n)         # 4-7 are AH, CH, DH, BH
        return ('r', n)

    def op1(self, g, o, p, lo3=None):
        w = self.w
        if o == 0x0F:
            if isc(self.b[p]):
                self.op2(g, self.b[p], p + 1)
            return
        if self.pre and self.pre != (0x66,):
            # string instructions
            if o == 0xA5 and self.pre == (0xF3,):
                self.emit(g, p, 'rep_movs', w)
            elif o == 0xAA and 0xF3 in self.pre:
                self.emit(g, p, 'rep_stos', 8)
            elif o == 0xAB and 0xF3 in self.pre:
                self.emit(g, p, 'rep_stos', w)
            return
        if o < 0x40 and o & 7 in (1, 3, 5):
            n = ALU[o >> 3]
            if o & 7 == 5:
                i = 4 if w > 16 else 2
                return self.emit(g, p + i, n, w, ('r', 0), ('i', self.simm(p, i)))
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, n, w, *((rm, r) if o & 7 == 1 else (r, rm))))
        if o in (0x81, 0x83):
            i = 1 if o == 0x83 else 4 if w > 16 else 2
            return self.modrm(g, p, lambda g, rm, r, e, ln: [self.emit(And(g, ge), ln + i, ALU[x], w, rm, ('i', self.simm(ln, i))) for ge, x in self.split(e, range(8))])
        if o in (0x88, 0x89, 0x8A, 0x8B):
            ww = 8 if o in (0x88, 0x8A) else w
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'mov', ww, *((rm, r) if o < 0x8A else (r, rm))), ww)
        if o in (0xC6, 0xC7):
            i = 1 if o == 0xC6 else 4 if w > 16 else 2
            ww = 8 if o == 0xC6 else w
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(And(g, eq(e, 0, 8)), ln + i, 'mov', ww, rm, ('i', self.simm(ln, i))), ww)
        if 0xB8 <= o <= 0xBF:
            i = {64: 8, 32: 4, 16: 2}[w]
            return self.emit(g, p + i, 'mov', w, self.reg(lo3 if lo3 is not None else o & 7, self.Bx), ('i', self.simm(p, i)))
        if 0x50 <= o <= 0x5F:
            return self.emit(g, p, 'push' if o < 0x58 else 'pop', 64 if w != 16 else 16, self.reg(lo3 if lo3 is not None else o & 7, self.Bx))
        if o in (0x6A, 0x68):
            i = 1 if o == 0x6A else 4
            return self.emit(g, p + i, 'push', 64, ('i', self.simm(p, i)))
        if o == 0x8F:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(And(g, eq(e, 0, 8)), ln, 'pop', 64, rm))
        if o == 0x63:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'movsxd', w, r, rm))
        if o == 0x8D:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'lea', w, r, rm))
        if o in (0x69, 0x6B):
            i = 1 if o == 0x6B else 4
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln + i, 'imul', w, r, rm, ('i', self.simm(ln, i))))
        if o == 0x85:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'test', w, rm, r))
        if o in (0xD1, 0xD3, 0xC1):
            i = 1 if o == 0xC1 else 0

            def f(g, rm, r, e, ln):
                for ge, x in self.split(e, SHIFT):
                    self.emit(And(g, ge), ln + i, SHIFT[x], w, rm, ('r', 1) if o == 0xD3 else ('i', self.simm(ln, 1) if i else 1))
            return self.modrm(g, p, f)
        if o == 0xF7:
            return self.modrm(g, p, lambda g, rm, r, e, ln: [self.emit(And(g, ge), ln, F7[x], w, rm) for ge, x in self.split(e, F7)])
        if o == 0xFF:
            return self.modrm(g, p, lambda g, rm, r, e, ln: [self.emit(And(g, ge), ln, n, 64, rm) for x, n in ((2, 'call'), (4, 'jmp'), (6, 'push')) for ge, _ in self.split(e, (x,))])
        if o == 0x99:
            return self.emit(g, p, 'cdq', w)
        if o == 0xC3:
            return self.emit(g, p, 'ret', 64)
        if o == 0xCC or o == 0xCD:
            return self.emit(And(g, o == 0xCC or eq(self.b[p], 3, 8)), p + (o == 0xCD), 'int3', 0)
        if o in (0xE8, 0xE9):
            return self.emit(g, p + 4, 'call' if o == 0xE8 else 'jmp', 64, ('rel', self.simm(p, 4)))
        if o == 0xEB:
            return self.emit(g, p + 1, 'jmp', 64, ('rel', self.simm(p, 1)))
        if 0x70 <= o <= 0x7F:
            return self.emit(g, p + 1, 'j' + CC[o & 15], 64, ('rel', self.simm(p, 1)))

    def op2(self, g, o, p):
        w = self.w
        pre = self.pre
        if 0x80 <= o <= 0x8F and not pre:
            return self.emit(g, p + 4, 'j' + CC[o & 15], 64, ('rel', self.simm(p, 4)))
        if 0x90 <= o <= 0x9F and not pre:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'set' + CC[o & 15], 8, rm), 8)
        if o in (0xBE, 0xBF) and not pre:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'movsx%d' % (8 if o == 0xBE else 16), w, r, rm), 8 if o == 0xBE else 16, w)
        if o == 0xAF and not pre:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'imul', w, r, rm))
        x = lambda v: ('x',) + v[1:] if v[0] == 'r' else v
        if o in (0x10, 0x11) and pre in ((0xF2,), (0xF3,)):
            n = 'movsd' if pre == (0xF2,) else 'movss'
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, n, 0, *((x(r), x(rm)) if o == 0x10 else (x(rm), x(r)))))
        if o == 0x7E and pre == (0x66,):
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'movd', 64 if w == 64 else 32, rm, x(r)))
        if pre == (0xF2,):
            n = {0x58: 'addsd', 0x59: 'mulsd', 0x5C: 'subsd', 0x5E: 'divsd', 0x51: 'sqrtsd', 0x5A: 'cvtsd2ss'}.get(o)
            if n:
                return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, n, 0, x(r), x(rm)))
            if o == 0x2A:
                return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'cvtsi2sd', w, x(r), rm))
            if o == 0x2C:
                return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'cvttsd2si', w, r, x(rm)))
            if o == 0xC2:
                def f(g, rm, r, e, ln):
                    for i, n in ((0, 'eq'), (1, 'lt'), (2, 'le'), (4, 'neq')):
                        self.emit(And(g, eq(self.b[ln], i, 8)), ln + 1, 'cmp%ssd' % n, 0, x(r), x(rm))
                return self.modrm(g, p, f)
        if pre == (0xF3,) and o == 0x5A:
            return self.modrm(g, p, lambda g, rm, r, e, ln: self.emit(g, ln, 'cvtss2sd', 0, x(r), x(rm)))

    def modrm(self, g, p, f, w=None, rw=-1):
        reg = self.reg(self.fld(p, 5, 3), self.Rx, w if rw == -1 else rw)
        ext = self.fld(p, 5, 3)
        rm = self.fld(p, 2, 0)
        for gm, mod in self.split(self.fld(p, 7, 6), (0, 1, 2, 3)):
            if mod == 3:
                f(And(g, gm), self.reg(rm, self.Bx, w), reg, ext, p + 1)
                continue
            dl = {0: 0, 1: 1, 2: 4}[mod]
            # no SIB byte
            ns = And(g, gm, Not(eq(rm, 4, 8)))
            if ns is not False:
                gg = And(ns, Not(eq(rm, 5, 8))) if mod == 0 else ns       # mod 0, r/m 5: relative to RIP, never the operand requested
                if gg is not False:
                    f(gg, ('m', simp(or_(rm, shl(self.Bx, 3, 8), 8)), None, 0, self.simm(p + 1, dl) if dl else 0), reg, ext, p + 1 + dl)
            sb = And(g, gm, eq(rm, 4, 8))
            if sb is not False:
                scale = shl(1, self.fld(p + 1, 7, 6), 8)
                index = simp(or_(self.fld(p + 1, 5, 3), shl(self.Xx, 3, 8), 8))
                b = self.fld(p + 1, 2, 0)
                base = simp(or_(b, shl(self.Bx, 3, 8), 8))
                nobase = eq(b, 5, 8) if mod == 0 else False
                if nobase is not False:
                    gg = And(sb, nobase)
                    if gg is not False:
                        f(gg, ('m', None, index, scale, self.simm(p + 2, 4)), reg, ext, p + 6)
                gg = And(sb, Not(nobase))
                if gg is not False:
                    f(gg, ('m', base, index, scale, self.simm(p + 2, dl) if dl else 0), reg, ext, p + 2 + dl)


def same_operand(want, got, w=64):
    """formula: the decoded operand is the requested one"""
    a, b = want[0], got[0]
    if a == 'r' and b == 'r8':
        return And(eq(want[1], got[1], 8), ult(got[1], 4, 8))
    if a != b:
        return False
    if a in 'rx':
        return eq(want[1], got[1], 8)
    if a == 'i':
        return eq(trunc(want[1], 64, w), trunc(got[1], 64, w), w)
    if a == 'm':
        _, wb, wi, wm, wd = want
        _, gb, gi, gm, gd = got
        disp = eq(wd, gd, 64)
        gnone = True if gi is None else eq(gi, 4, 8)            # index field 100 without REX.X: no index
        if wi is None:
            alt = [And(gnone, eq(wb, gb, 8)) if gb is not None else False,
                   And(Not(gnone), eq(gi, wb, 8), eq(gm, 1, 8)) if gb is None and gi is not None else False]
            return And(disp, Or(*alt))
        if gi is None or gnone is True:
            return And(disp, wb is None, eq(wm, 1, 8), eq(gb, wi, 8)) if gb is not None else False
        if wb is None:
            return And(disp, Or(And(gb is None, Not(gnone), eq(gi, wi, 8), eq(gm, wm, 8)),
                                And(gnone, eq(wm, 1, 8), eq(gb, wi, 8)) if gb is not None else False))
        if gb is None:
            return False
        return And(disp, Not(gnone), Or(And(eq(gb, wb, 8), eq(gi, wi, 8), eq(gm, wm, 8)), And(eq(wm, 1, 8), eq(gm, 1, 8), eq(gb, wi, 8), eq(gi, wb, 8))))
    return False


def matches(wants, dec, ln):
    """formula: what the bytes denote is one of the requested instructions and occupies ln bytes"""
    alts = []
    for g, ins, l in dec:
        for want in wants:
            if want[0] != ins[0] or want[1] != ins[1] or len(want) != len(ins):
                continue
            c = And(g, eq(ln, l, 64))
            for a, b in zip(want[2:], ins[2:]):
                if c is False:
                    break
                c = And(c, same_operand(a, b, want[1] if want[1] else 64))
            if c is not False:
                alts.append(c)
    return Or(*alts) if alts else False


# ------------------------------------------------------------------ requested forms
RR, RI, RM, MR, MI = ('r', 'r'), ('r', 'i'), ('r', 'm'), ('m', 'r'), ('m', 'i')
FORMS = []
for n in ALU:
    FORMS += [(n, f) for f in [RR, RI, MR, MI]]
for n in ['add', 'and', 'or', 'xor', 'cmp', 'imul']:
    FORMS.append((n, RM))
for n in ['add', 'sub', 'and', 'or', 'xor', 'cmp']:
    FORMS += [(n + '64', f) for f in [RR, MR, MI]]
for n in ['add', 'sub', 'cmp']:
    FORMS.append((n + '64', RI))
for n in ['add', 'and', 'or', 'xor', 'cmp', 'imul']:
    FORMS.append((n + '64', RM))
FORMS += [('imul', RR), ('imul', RI), ('imul', ('r',)), ('imul64', RR)]
FORMS += [('mov', f) for f in [RR, RI, RM, MR, MI, ('m1', 'i'), ('m2', 'i'), ('m1', 'r'), ('m2', 'r')]]
FORMS += [('mov64', f) for f in [RR, RI, ('r', 'q'), RM, MR, MI]]
FORMS += [('movsx', ('r', 'm1')), ('movsx', ('r', 'm2')), ('movsxd', ('r', 'm3')), ('lea', ('r', 'm3')), ('lea', ('r', 'm4'))]
FORMS += [('push', ('r',)), ('push', ('i',)), ('push', ('m4',)), ('pop', ('r',)), ('pop', ('m4',))]
for n in ['neg', 'not', 'idiv']:
    FORMS += [(n, ('r',)), (n, ('m',)), (n + '64', ('r',)), (n + '64', ('m',))]
FORMS += [('shl', RI), ('shl', MI)]
for n in ['sal', 'sar', 'sal64', 'sar64']:
    FORMS += [(n, RI), (n, ('r', 'c'))]
FORMS += [('test', RR)]
FORMS += [('set' + c, ('r4',)) for c in ['l', 'g', 'le', 'ge', 'e', 'ne', 'z', 'nz']]
FORMS += [('movss', ('m3', 'x')), ('movsd', ('m4', 'x')), ('movsd', ('x', 'm4')), ('movsd', ('x', 'x')), ('movd', ('r', 'x')), ('cvtss2sd', ('x', 'x')), ('cvtss2sd', ('x', 'm3')),
          ('cvtsd2ss', ('x', 'x')), ('cvtsd2ss', ('x', 'm4')), ('cvttsd2si', ('r', 'm4')), ('cvttsd2si64', ('r', 'm4')), ('cvtsi2sd', ('x', 'r')), ('cvtsi2sd', ('x', 'm3')),
          ('cvtsi2sd64', ('x', 'r')), ('cvtsi2sd64', ('x', 'm4')), ('sqrtsd', ('x', 'x'))]
for n in ['addsd', 'subsd', 'mulsd', 'divsd']:
    FORMS += [(n, ('x', 'x')), (n, ('x', 'm4'))]
FORMS += [(n, ('x', 'x')) for n in ['cmpeqsd', 'cmpltsd', 'cmplesd', 'cmpneqsd']]
FORMS += [('call', ('r',)), ('call', ('m4',))]
FORMS += [(n, ()) for n in ['cdq', 'cqo', 'rep_movsd', 'rep_stosb', 'rep_stosw', 'rep_stosd', 'rep_stosq', 'ret', 'int', 'nop', 'none', 'other', 'use32']]
FORMS += [('read_register', ('r',)), ('kill_register', ('r',)), ('set_tracking', ('i',))]
COND = {'ja': 'ja', 'jae': 'jae', 'jb': 'jb', 'jbe': 'jbe', 'je': 'je', 'jg': 'jg', 'jl': 'jl', 'jne': 'jne', 'jnp': 'jnp', 'jp': 'jp', 'jge': 'jge', 'jle': 'jle', 'jmp': 'jmp'}
EMPTY = ('nop', 'none', 'other', 'use32', 'read_register', 'kill_register', 'set_tracking')
_table = None


def kind(o):
    """operand kind of a decoded request (contracts/x86.py operands) in the vocabulary of FORMS"""
    if o[0] == 'm':
        return 'm%d' % {v: k for k, v in K()['size'].items()}[o[1]]
    if o[0] == 'i':
        return 'q' if o[2] == 64 else 'i'
    return o[0]


def norm(name, f):
    s = 'm4' if name.endswith('64') else 'm3'
    return name, tuple(s if x == 'm' else x for x in f)


def supported():
    global _table
    if _table is None:
        _table = {norm(*x) for x in FORMS}
    return _table


class Base(Contract):
    tus = ['Translator_X86.cpp', SHIM]
    fn = 'vc_encode'
    native_replay = False
    timeout = 30000
    max_steps = 200000

    def stubs(self, Xc):
        return dict(TRACE) if 'TRACE' in globals() else {}

    def vec(self, Xc, p, data, mx, n):
        k = K()
        Xc.put(p + k['OFF(FastVector<int>,data)'], 8, data)
        Xc.put(p + k['OFF(FastVector<int>,max)'], 4, mx)
        Xc.put(p + k['OFF(FastVector<int>,count)'], 4, n)

    def start(self, Xc, count, size=4 * MAXLEN, nlabels=4):
        k = K()
        Xc.E.use_init = 'all'
        Xc.E.addr_lo = True
        self.code = Xc.obj('code', size)
        self.insts = Xc.obj('insts', k['sizeof(x86Instruction)'] * count)
        self.pos = Xc.obj('pos', 8 * 8)
        self.table = Xc.obj('labels', 8 * nlabels)
        self.pend = Xc.obj('pending', 64 * 8)
        self.vecp = Xc.obj('instAddress', k['sizeof(FastVector<int>)'])
        self.vec(Xc, self.vecp, self.pos, 8, 8)
        self.vec(Xc, Ptr('g::labels', 0), self.table, nlabels, nlabels)
        self.vec(Xc, Ptr('g::pendingJumps', 0), self.pend, 8, 0)
        return [self.code, self.code + size, self.insts, count, self.vecp]

    def inst(self, i):
        return self.insts + K()['sizeof(x86Instruction)'] * i

    def put_inst(self, Xc, i, name, instID=0, label=None):
        k = K()
        p = self.inst(i)
        Xc.put(p + k['OFF(x86Instruction,name)'], 4, k['code'][name])
        Xc.put(p + k['OFF(x86Instruction,instID)'], 4, instID)
        if label is not None:
            Xc.put(p + k['OFF(x86Instruction,labelID)'], 4, label)
        return p + k['OFF(x86Instruction,argA)'], p + k['OFF(x86Instruction,argB)']

    def arg(self, Xc, p, t, **f):
        k = K()
        Xc.put(p + k['OFF(x86Argument,type)'], 4, k[t])
        for n, (sz, v) in f.items():
            Xc.put(p + k['OFF(x86Argument,%s)' % n], sz, v)

    def hw(self, r):
        """hardware number of a register enumerator"""
        v = 0
        for a, b in K()['hw'].items():
            if isc(r):
                if r == a:
                    return b
            else:
                v = ite(eq(r, a, 32), b, v, 8)
        return simp(v)

    def anyreg(self, Xc, tag, names=None):
        k = K()
        r = Xc.int(tag, 32)
        vals = sorted(k['hw'])
        if names:
            Xc.assume(Or(*[eq(r, x86.R(n), 32) for n in names]))
        else:
            Xc.assume(And(uge(r, vals[0], 32), ule(r, vals[-1], 32)))
        return r

    def operand(self, Xc, p, kd, tag, w):
        """writes an operand of the given kind; returns the decoded form"""
        k = K()
        if kd in ('r', 'r4', 'c'):
            r = self.anyreg(Xc, tag, {'r4': ['RAX', 'RBX', 'RCX', 'RDX'], 'c': ['RCX']}.get(kd)) if kd != 'c' else x86.R('RCX')
            self.arg(Xc, p, 'argReg', reg=(4, r))
            return ('r', self.hw(r))
        if kd == 'x':
            r = Xc.int(tag, 32)
            Xc.assume(ult(r, 16, 32))
            self.arg(Xc, p, 'argXmmReg', xmmArg=(4, r))
            return ('x', trunc(r, 32, 8))
        if kd == 'i':
            v = Xc.int(tag, 32)
            self.arg(Xc, p, 'argNumber', num=(4, v))
            return ('i', sext(v, 32, 64))
        if kd == 'q':
            v = Xc.int(tag, 64)
            self.arg(Xc, p, 'argImm64', imm64Arg=(8, v))
            return ('i', v)
        # memory
        size = {'1': 1, '2': 2, '3': 3, '4': 4}.get(kd[1:]) or (4 if w == 64 else 3)
        how = self.address
        d = Xc.int(tag + '.disp', 32)
        base = self.anyreg(Xc, tag + '.base') if 'b' in how else x86.R('NONE')
        index, mult = x86.R('NONE'), 1
        if 'i' in how:
            index = self.anyreg(Xc, tag + '.index')
            Xc.assume(Not(eq(index, x86.R('RSP'), 32)))
            mult = Xc.int(tag + '.mult', 32)
            Xc.assume(Or(*[eq(mult, m, 32) for m in (1, 2, 4, 8)]))
        self.arg(Xc, p, 'argPtr', ptrSize=(4, k['size'][size]), ptrBase=(4, base), ptrIndex=(4, index), ptrMult=(4, mult), ptrNum=(4, d))
        return ('m', self.hw(base) if 'b' in how else None, self.hw(index) if 'i' in how else None, trunc(mult, 32, 8) if not isc(mult) else mult, sext(d, 32, 64))

    def bytes(self, Xc, F, off=0, n=16):
        return [Xc.E.rd(F, self.code + (off + i), 1) for i in range(n)]

    def offset(self, Xc, ret):
        r = Xc.E.pp(ret)
        if getattr(r, 'base', None) != 'code':
            return None
        return r.off


class Encode(Base):
    """one instruction"""

    def __init__(self, name, form, address):
        self.op, self.form, self.address = name, form, address
        self.name = 'encode.%s %s%s' % (name, ','.join(form), ' [%s]' % address if address else '')

    def width(self):
        return 64 if self.op.endswith('64') else 32

    def setup(self, Xc):
        args = self.start(Xc, 1)
        self.id = 3 if self.address else Xc.choice('instID', [0, 3])
        a, b = self.put_inst(Xc, 0, self.op, self.id)
        self.ops = []
        for p, kd, t in zip((a, b), self.form, 'AB'):
            self.ops.append(self.operand(Xc, p, kd, 'arg' + t, self.width()))
        for p in (a, b)[len(self.form):]:
            self.arg(Xc, p, 'argNone', imm64Arg=(8, 0))
        o = self.op
        imm = self.ops[-1][1] if self.ops and self.ops[-1][0] == 'i' else None
        if o in ('shl', 'sal', 'sar', 'sal64', 'sar64') and imm is not None:
            Xc.assume(ult(imm, self.width(), 64))
        if self.form[:1] == ('m1',) and imm is not None:
            Xc.assume(And(sge(imm, -128, 64), sle(imm, 127, 64)))
        if self.form[:1] == ('m2',) and imm is not None:
            Xc.assume(And(sge(imm, -32768, 64), sle(imm, 32767, 64)))
        return args

    def wants(self):
        """the instructions that carry out the request, as the decoder names them"""
        o, ops, w = self.op, tuple(self.ops), self.width()
        b = o[:-2] if o.endswith('64') else o
        if b in ALU or b in ('not', 'neg', 'idiv'):
            return [(b, w) + ops]
        if b == 'imul':
            if len(ops) == 1:
                return [('imul1', w) + ops]
            return [('imul', w) + ops] if ops[1][0] != 'i' else [('imul', w, ops[0], ops[0], ops[1])]
        if b == 'mov':
            f = self.form[0]
            if f in ('m1', 'm2'):
                w = 8 if f == 'm1' else 16
            r = [('mov', w) + ops]
            if ops[1][0] == 'i' and w == 64 and ops[0][0] == 'r':
                # a 32 bit move clears the upper half
                self.zx = And(eq(lshr(ops[1][1], 32, 64), 0, 64))
                r.append(('mov', 32) + ops)
            return r
        if o == 'movsx':
            return [('movsx' + ('8' if self.form[1] == 'm1' else '16'), 32) + ops]
        if o == 'movsxd':
            return [('movsxd', 64) + ops]
        if o == 'lea':
            return [('lea', 64 if self.form[1] == 'm4' else 32) + ops]
        if o in ('push', 'pop', 'call'):
            return [(o, 64) + ops]
        if b in ('shl', 'sal', 'sar'):
            return [('shl' if b == 'sal' else b, w) + ops]
        if o == 'test':
            return [('test', w) + ops, ('test', w) + ops[::-1]]
        if o.startswith('set'):
            c = {'z': 'e', 'nz': 'ne'}.get(o[3:], o[3:])
            return [('set' + c, 8) + ops]
        if o in ('cvtsi2sd', 'cvttsd2si', 'cvtsi2sd64', 'cvttsd2si64'):
            return [(b, w) + ops]
        if o == 'movd':
            return [('movd', 32) + ops]
        if o in ('cdq', 'cqo'):
            return [('cdq', 32 if o == 'cdq' else 64)]
        if o.startswith('rep_'):
            return [('rep_' + o[4:8], {'b': 8, 'w': 16, 'd': 32, 'q': 64}[o[8]])]
        if o == 'ret':
            return [('ret', 64)]
        if o == 'int':
            return [('int3', 0)]
        return [(o, 0) + ops]

    def post(self, Xc, E0, F, ret):
        off = self.offset(Xc, ret)
        yield 'returns a position in the code buffer', off is not None
        if off is None:
            return
        if self.op in EMPTY:
            yield 'nothing is written for a marker', And(eq(off, 0, 64), unchanged(Xc, E0, F, 'code'))
        else:
            w = self.wants()
            dec = Dec(self.bytes(Xc, F)).decode()
            ok = matches(w[:1] if getattr(self, 'zx', None) is not None else w, dec, off)
            if getattr(self, 'zx', None) is not None:
                ok = Or(ok, And(self.zx, matches(w[1:], dec, off)))
            yield 'the bytes written are the requested instruction', ok
        p = self.pos
        if self.id:
            yield 'address of the virtual machine instruction recorded', Xc.E.icmp('eq', Xc.E.rdp(F, p + 8 * (self.id - 1)), self.code, ir.PTR)
            yield 'other addresses kept', And(unchanged(Xc, E0, F, 'pos', except_=(8 * (self.id - 1), 8)))
        else:
            yield 'addresses kept', unchanged(Xc, E0, F, 'pos')
        yield 'labels kept', unchanged(Xc, E0, F, 'labels')


class Jump(Base):
    """a jump to an instruction of the program: the displacement leads to the recorded address"""

    def __init__(self, op):
        self.op = op
        self.name = 'encode.%s to instruction' % op

    def setup(self, Xc):
        k = K()
        args = self.start(Xc, 1, nlabels=1)
        a, b = self.put_inst(Xc, 0, self.op, 0)
        self.target = Xc.choice('target', [0, 5])
        self.arg(Xc, a, 'argLabel', imm64Arg=(8, x86.K()['LABEL_GLOBAL'] | k['near'] | self.target))
        self.arg(Xc, b, 'argNone', imm64Arg=(8, 0))
        # instructions lie less than 2 GB apart
        self.d = Xc.int('distance', 32)
        for i in range(8):
            Xc.put(self.pos + 8 * i, 8, self.code + sext(self.d if i == self.target else 0, 32, 64))
        Xc.assume(And(sge(self.d, -(1 << 31) + 16, 32)))
        return args

    def post(self, Xc, E0, F, ret):
        off = self.offset(Xc, ret)
        yield 'returns a position in the code buffer', off is not None
        if off is None:
            return
        n = COND.get(self.op, self.op)
        d = sext(self.d, 32, 64)
        alts = []
        for g, ins, l in Dec(self.bytes(Xc, F)).decode():
            if ins[0] == n and ins[2][0] == 'rel':
                alts.append(And(g, eq(off, l, 64), eq(add(ins[2][1], l, 64), d, 64)))
        yield 'the jump leads to the instruction', Or(*alts) if alts else False
        yield 'no jump is left pending', eq(Xc.E.rd(F, Ptr('g::pendingJumps', 0) + K()['OFF(FastVector<int>,count)'], 4), 0, 32)
        yield 'addresses kept', unchanged(Xc, E0, F, 'pos')


class Local(Base):
    """jumps inside the code of an instruction: forward and backward, around another instruction"""

    def __init__(self, op, back):
        self.op, self.back = op, back
        self.name = 'encode.%s to label (%s)' % (op, 'backward' if back else 'forward')
        self.address = 'b'

    def setup(self, Xc):
        args = self.start(Xc, 3)
        L = 2
        j, l = (2, 0) if self.back else (0, 2)
        a, b = self.put_inst(Xc, j, self.op, 4 if self.back else 0)
        self.arg(Xc, a, 'argLabel', imm64Arg=(8, L))
        self.arg(Xc, b, 'argNone', imm64Arg=(8, 0))
        a, b = self.put_inst(Xc, l, 'label', 0 if self.back else 4, label=L)
        for p in (a, b):
            self.arg(Xc, p, 'argNone', imm64Arg=(8, 0))
        a, b = self.put_inst(Xc, 1, 'mov64', 2)
        self.mid = [self.operand(Xc, a, 'm4', 'argA', 64), self.operand(Xc, b, 'r', 'argB', 64)]
        return args

    def post(self, Xc, E0, F, ret):
        off = self.offset(Xc, ret)
        yield 'returns a position in the code buffer', off is not None
        if off is None:
            return
        n = COND.get(self.op, self.op)
        bs = self.bytes(Xc, F, 0, 32)
        alts = []
        jl = 5 if self.op == 'call' else 2
        if not isc(off):
            off = simp(off)
        for mid in ([off - jl] if isc(off) else range(3, 10)):
            jp, mp = (mid, 0) if self.back else (0, jl)
            lab = 0 if self.back else jl + mid
            m = matches([('mov', 64) + tuple(self.mid)], Dec(bs[mp:mp + 16]).decode(), mid)
            for g, ins, l in Dec(bs[jp:jp + 16]).decode():
                if ins[0] == n and ins[2][0] == 'rel' and l == jl:
                    alts.append(And(m, g, eq(off, jl + mid, 64), eq(add(ins[2][1], jp + l, 64), lab, 64),
                                    Xc.E.icmp('eq', Xc.E.rdp(F, self.pos + 8), self.code + mp, ir.PTR), Xc.E.icmp('eq', Xc.E.rdp(F, self.pos + 24), self.code + (jp if self.back else lab), ir.PTR)))
        yield 'the code is the three instructions in order, the jump leads to the label, and the addresses of the virtual machine instructions are recorded', Or(*alts) if alts else False
        yield 'no jump is left pending', eq(Xc.E.rd(F, Ptr('g::pendingJumps', 0) + K()['OFF(FastVector<int>,count)'], 4), 0, 32)


def contracts():
    out = []
    for n, f in FORMS:
        if any(x[0] == 'm' for x in f):
            out += [Encode(n, f, a) for a in ('b', 'bi', 'i')]
        else:
            out.append(Encode(n, f, ''))
    for o in list(COND) + ['call']:
        out.append(Jump(o))
        if o != 'call':
            out += [Local(o, False), Local(o, True)]
    return out
