"""Bit-vector value layer: values are Python ints (concrete) or z3 terms.

Every operation works on both, so contracts written against it are evaluated
symbolically (for proofs) and concretely (for replays of counterexamples).
Floating point values are carried as IEEE bit patterns; arithmetic on symbolic
floats is uninterpreted (same operator symbol in code and contract), on
concrete floats it is computed.
"""
import struct, ctypes, math
import z3

BV = z3.BitVecRef


def M(w):
    return (1 << w) - 1


def isc(x):
    return isinstance(x, int)


def bv(x, w):
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), w)
    if isinstance(x, int):
        return z3.BitVecVal(x & M(w), w)
    return x


def simp(x):
    """simplify a z3 term; concrete results become Python values"""
    if isinstance(x, (int, bool)):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def sg(x, w):
    x &= M(w)
    return x - (1 << w) if x >> (w - 1) else x


def add(a, b, w):
    if isc(a) and isc(b):
        return (a + b) & M(w)
    if isc(a) and a & M(w) == 0:
        return b
    if isc(b) and b & M(w) == 0:
        return a
    return bv(a, w) + bv(b, w)


def sub(a, b, w):
    if isc(a) and isc(b):
        return (a - b) & M(w)
    if isc(b) and b & M(w) == 0:
        return a
    return bv(a, w) - bv(b, w)


def mul(a, b, w):
    if isc(a) and isc(b):
        return (a * b) & M(w)
    if isc(a) and a & M(w) == 1:
        return b
    if isc(b) and b & M(w) == 1:
        return a
    if (isc(a) and a & M(w) == 0) or (isc(b) and b & M(w) == 0):
        return 0
    if ABSTRACT and not isc(simp(a)) and not isc(simp(b)):
        return comm_uf('umul', a, b, w)
    return bv(a, w) * bv(b, w)


# products and comparisons of unknown values as uninterpreted functions (both sides of a comparison of two machines)
ABSTRACT = False


def set_abstract(v):
    global ABSTRACT
    ABSTRACT = v


def comm_uf(name, a, b, w, rw=None):
    ts = [bv(simp(t), w) for t in (a, b)]
    if (ts[0].hash(), ts[0].get_id()) > (ts[1].hash(), ts[1].get_id()):
        ts.reverse()
    return UF(name + str(w), [w, w], rw or w)(*ts)


def neg(a, w):
    return sub(0, a, w)


def bnot(a, w):
    if isc(a):
        return ~a & M(w)
    return ~a


def and_(a, b, w):
    if isc(a) and isc(b):
        return a & b & M(w)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            x &= M(w)
            if x == 0:
                return 0
            if x == M(w):
                return y
    return bv(a, w) & bv(b, w)


def or_(a, b, w):
    if isc(a) and isc(b):
        return (a | b) & M(w)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            x &= M(w)
            if x == 0:
                return y
            if x == M(w):
                return x
    return bv(a, w) | bv(b, w)


def xor(a, b, w):
    if isc(a) and isc(b):
        return (a ^ b) & M(w)
    if isc(b) and b & M(w) == 0:
        return a
    if isc(a) and a & M(w) == 0:
        return b
    return bv(a, w) ^ bv(b, w)


# shifts: the count is masked to the width, as x86-64 does
def _cnt(b, w):
    if isc(b):
        return b & (w - 1) if w in (8, 16, 32, 64) and w >= 32 else b
    if w in (32, 64):
        return simp(bv(b, w) & (w - 1))
    return b


def shl(a, b, w):
    b = _cnt(b, w)
    if isc(b):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isc(a):
            return (a << b) & M(w)
    return bv(a, w) << bv(b, w)


def lshr(a, b, w):
    b = _cnt(b, w)
    if isc(b):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isc(a):
            return (a & M(w)) >> b
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(a, b, w):
    b = _cnt(b, w)
    if isc(b):
        if b == 0:
            return a
        if isc(a):
            return (sg(a, w) >> min(b, w - 1)) & M(w)
    return bv(a, w) >> bv(b, w)


def udiv(a, b, w):
    if isc(a) and isc(b):
        return (a // b) if b else M(w)
    if isc(b) and b & (b - 1) == 0 and b:
        return lshr(a, b.bit_length() - 1, w)
    return z3.UDiv(bv(a, w), bv(b, w))


def urem(a, b, w):
    if isc(a) and isc(b):
        return (a % b) if b else a
    return z3.URem(bv(a, w), bv(b, w))


def sdiv(a, b, w):
    if isc(a) and isc(b):
        a, b = sg(a, w), sg(b, w)
        if b == 0:
            return M(w) if a >= 0 else 1
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & M(w)
    return bv(a, w) / bv(b, w)


def srem(a, b, w):
    if isc(a) and isc(b):
        a, b = sg(a, w), sg(b, w)
        if b == 0:
            return a & M(w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & M(w)
    return z3.SRem(bv(a, w), bv(b, w))


def zext(a, w, W):
    if isc(a):
        return a & M(w)
    if w == W:
        return a
    return z3.ZeroExt(W - w, a)


def sext(a, w, W):
    if isc(a):
        return sg(a, w) & M(W)
    if w == W:
        return a
    return z3.SignExt(W - w, a)


def trunc(a, w, W):
    """from width w to W"""
    if isc(a):
        return a & M(W)
    if w == W:
        return a
    return z3.Extract(W - 1, 0, a)


def extract(a, hi, lo):
    if isc(a):
        return (a >> lo) & M(hi - lo + 1)
    if lo == 0 and hi == a.size() - 1:
        return a
    return z3.Extract(hi, lo, a)


# ---- booleans: Python bool or z3 BoolRef
def Not(a):
    if isinstance(a, (bool, int)):
        return not a
    return z3.Not(a)


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    out = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, (bool, int)):
        return b if a else Not(b)
    if isinstance(b, (bool, int)):
        return a if b else Not(a)
    return a == b


def eq(a, b, w=None):
    if isc(a) and isc(b):
        return (a == b) if w is None else (a & M(w)) == (b & M(w))
    if w is None:
        w = (a if not isc(a) else b).size()
    a = bv(a, w)
    b = bv(b, w)
    if a.eq(b):
        return True
    return a == b


def ne(a, b, w=None):
    return Not(eq(a, b, w))


def ult(a, b, w=64):
    if isc(a) and isc(b):
        return (a & M(w)) < (b & M(w))
    return z3.ULT(bv(a, w), bv(b, w))


def ule(a, b, w=64):
    if isc(a) and isc(b):
        return (a & M(w)) <= (b & M(w))
    return z3.ULE(bv(a, w), bv(b, w))


def ugt(a, b, w=64):
    return ult(b, a, w)


def uge(a, b, w=64):
    return ule(b, a, w)


def slt(a, b, w=64):
    if isc(a) and isc(b):
        return sg(a, w) < sg(b, w)
    return bv(a, w) < bv(b, w)


def sle(a, b, w=64):
    if isc(a) and isc(b):
        return sg(a, w) <= sg(b, w)
    return bv(a, w) <= bv(b, w)


def sgt(a, b, w=64):
    return slt(b, a, w)


def sge(a, b, w=64):
    return sle(b, a, w)


def ite(c, a, b, w):
    if isinstance(c, (bool, int)):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def b2i(c, w):
    """bool -> 0/1 of width w"""
    if isinstance(c, (bool, int)):
        return int(c)
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def concat_le(bs):
    """little-endian list of 8-bit values -> value"""
    if all(isc(b) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= (b & 255) << (8 * i)
        return r
    if len(bs) == 1:
        return bs[0]
    return z3.Concat(*[bv(b, 8) for b in reversed(bs)])


# ------------------------------------------------------------------ floats
def b2d(x):
    return struct.unpack('<d', struct.pack('<Q', x & M(64)))[0]


def d2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def b2f(x):
    return struct.unpack('<f', struct.pack('<I', x & M(32)))[0]


def f2b(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def todbl(x, w):
    return b2d(x) if w == 64 else b2f(x)


def isnanb(x, w):
    if w == 64:
        return (x & 0x7fffffffffffffff) > 0x7ff0000000000000
    return (x & 0x7fffffff) > 0x7f800000


def fromdbl(v, w):
    if v != v:
        return 0x7ff8000000000000 if w == 64 else 0x7fc00000
    if w == 64:
        return d2b(v)
    try:
        return f2b(v)
    except OverflowError:
        return 0x7f800000 if v > 0 else 0xff800000


def _div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return float('nan')
        return math.copysign(float('inf'), a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(float('inf'), a) * math.copysign(1.0, b)


_libm = ctypes.CDLL('libm.so.6')
for _n, _k in (('pow', 2), ('fmod', 2), ('sqrt', 1), ('ceil', 1), ('floor', 1), ('sin', 1), ('cos', 1), ('tan', 1), ('exp', 1), ('log', 1)):
    _f = getattr(_libm, _n)
    _f.restype = ctypes.c_double
    _f.argtypes = [ctypes.c_double] * _k


def _mul(a, b):
    try:
        return a * b
    except OverflowError:
        return math.copysign(float('inf'), a) * math.copysign(1.0, b)


FCONC = {
    'fadd': lambda a, b: a + b,
    'fsub': lambda a, b: a - b,
    'fmul': _mul,
    'fdiv': _div,
    'pow': lambda a, b: _libm.pow(a, b),
    'fmod': lambda a, b: _libm.fmod(a, b),
    'frem': lambda a, b: _libm.fmod(a, b),
    'sqrt': lambda a: _libm.sqrt(a),
}
for _n in ('ceil', 'floor', 'sin', 'cos', 'tan', 'exp', 'log'):
    FCONC[_n] = (lambda f: lambda a: f(a))(getattr(_libm, _n))

_uf = {}


def UF(name, dom, rng):
    k = (name, tuple(dom), rng)
    f = _uf.get(k)
    if f is None:
        srt = lambda s: z3.BoolSort() if s == 'b' else z3.BitVecSort(s)
        f = z3.Function(name, *[srt(d) for d in dom], srt(rng))
        _uf[k] = f
    return f


def fop(op, args, w):
    if all(isc(a) for a in args):
        v = FCONC[op](*[todbl(a, w) for a in args])
        if w == 32 and op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            # double rounding is innocuous for these (53 >= 2*24+2)
            return fromdbl(v, 32)
        return fromdbl(v, w)
    ts = [bv(a, w) for a in args]
    if op in ('fadd', 'fmul'):
        # commutative up to the payload of a NaN: canonical operand order
        ts = [bv(simp(t), w) for t in ts]
        if (ts[0].hash(), ts[0].get_id()) > (ts[1].hash(), ts[1].get_id()):
            ts.reverse()
    return UF(op + str(w), [w] * len(ts), w)(*ts)


def fneg(a, w):
    return xor(a, 1 << (w - 1), w)


def _fcanon(a, w):
    """IEEE order of non-NaN values as signed integers (both zeros are 0)"""
    x = bv(a, w)
    m = x & z3.BitVecVal(M(w - 1), w)
    return z3.If(z3.Extract(w - 1, w - 1, x) == 1, -m, m)


def _fboth(a, b, w):
    inf = z3.BitVecVal(0x7ff0000000000000 if w == 64 else 0x7f800000, w)
    c = [z3.ULE(bv(x, w) & z3.BitVecVal(M(w - 1), w), inf) for x in (a, b) if not isc(x)]
    if any(isc(x) and isnanb(x, w) for x in (a, b)):
        return False
    return And(*c)


def flt_(a, b, w):
    if isc(a) and isc(b):
        return todbl(a, w) < todbl(b, w)
    if ABSTRACT and not isc(a) and not isc(b):
        return UF('flt' + str(w), [w, w], 1)(bv(simp(a), w), bv(simp(b), w)) == 1
    return And(_fboth(a, b, w), _fcanon(a, w) < _fcanon(b, w))


def fle_(a, b, w):
    if isc(a) and isc(b):
        return todbl(a, w) <= todbl(b, w)
    if ABSTRACT and not isc(a) and not isc(b):
        return UF('fle' + str(w), [w, w], 1)(bv(simp(a), w), bv(simp(b), w)) == 1
    return And(_fboth(a, b, w), _fcanon(a, w) <= _fcanon(b, w))


def feq_(a, b, w):
    if isc(a) and isc(b):
        return todbl(a, w) == todbl(b, w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if isnanb(b, w):
            return False
        if b & M(w - 1):
            return eq(a, b, w)
        return eq(and_(a, M(w - 1), w), 0, w)
    if ABSTRACT and not isc(a):
        return comm_uf('feq', a, b, w, 1) == 1
    return And(_fboth(a, b, w), z3.simplify(_fcanon(a, w) == _fcanon(b, w)))


def funo(a, b, w):
    if isc(a) and isc(b):
        return isnanb(a, w) or isnanb(b, w)

    def nn(x):
        x = bv(x, w)
        mx = (0x7ff0000000000000 if w == 64 else 0x7f800000)
        return z3.UGT(x & M(w - 1), z3.BitVecVal(mx, w))
    return z3.Or(nn(a), nn(b))


def fcmp(pred, a, b, w):
    if pred == 'oeq':
        return feq_(a, b, w)
    if pred == 'une':
        return Not(feq_(a, b, w))
    if pred == 'olt':
        return flt_(a, b, w)
    if pred == 'ole':
        return fle_(a, b, w)
    if pred == 'ogt':
        return flt_(b, a, w)
    if pred == 'oge':
        return fle_(b, a, w)
    if pred == 'uno':
        return funo(a, b, w)
    if pred == 'ord':
        return Not(funo(a, b, w))
    if pred == 'one':
        return And(Not(feq_(a, b, w)), Not(funo(a, b, w)))
    if pred == 'ueq':
        return Or(feq_(a, b, w), funo(a, b, w))
    if pred == 'ult':
        return Or(flt_(a, b, w), funo(a, b, w))
    if pred == 'ule':
        return Or(fle_(a, b, w), funo(a, b, w))
    if pred == 'ugt':
        return Or(flt_(b, a, w), funo(a, b, w))
    if pred == 'uge':
        return Or(fle_(b, a, w), funo(a, b, w))
    if pred == 'true':
        return True
    if pred == 'false':
        return False
    raise ValueError(pred)


def fptosi(a, w, W):
    """out of range / NaN gives the x86 integer indefinite"""
    if W < 32:
        return trunc(fptosi(a, w, 32), 32, W)
    if isc(a):
        v = todbl(a, w)
        if v != v or v in (float('inf'), float('-inf')):
            return 1 << (W - 1)
        v = int(v)
        if not (-(1 << (W - 1)) <= v < (1 << (W - 1))):
            return 1 << (W - 1)
        return v & M(W)
    return UF('fptosi%d_%d' % (w, W), [w], W)(a)


def fptoui(a, w, W):
    if isc(a):
        v = todbl(a, w)
        if v != v or v in (float('inf'), float('-inf')):
            return 1 << (W - 1)
        return int(v) & M(W)
    return UF('fptoui%d_%d' % (w, W), [w], W)(a)


def itofp(a, w, W, signed):
    if w < 32:
        a = sext(a, w, 32) if signed else zext(a, w, 32)
        w = 32
        signed = True
    if w == 32 and signed and not isc(a):
        # the same number, whatever the width of the source
        a = sext(a, 32, 64)
        w = 64
    if isc(a):
        v = sg(a, w) if signed else a & M(w)
        if W == 64:
            return d2b(float(v))
        return f2b_exact(v)
    return UF('%citofp%d_%d' % ('su'[not signed], w, W), [w], W)(a)


def f2b_exact(v):
    """int -> float32 bits with a single rounding"""
    if v == 0:
        return 0
    s = 1 if v < 0 else 0
    n = abs(v)
    e = n.bit_length() - 1
    if e <= 23:
        m = n << (23 - e)
    else:
        sh = e - 23
        m = n >> sh
        rem = n & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if rem > half or (rem == half and m & 1):
            m += 1
            if m >> 24:
                m >>= 1
                e += 1
    return (s << 31) | ((e + 127) << 23) | (m & 0x7fffff)


def fpext(a):
    if isc(a):
        if isnanb(a, 32):
            # quiet, payload kept
            return ((a >> 31) << 63) | 0x7ff8000000000000 | ((a & 0x7fffff) << 29)
        return d2b(b2f(a))
    return UF('fpext', [32], 64)(a)


def fptrunc(a):
    if isc(a):
        if isnanb(a, 64):
            return ((a >> 63) << 31) | 0x7fc00000 | ((a >> 29) & 0x7fffff)
        return fromdbl(b2d(a), 32)
    return UF('fptrunc', [64], 32)(a)


# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base = base
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.base, self.off)

    def __add__(self, k):
        return Ptr(self.base, add(self.off, k, 64))


NULL = Ptr(None, 0)
