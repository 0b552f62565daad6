"""Memory objects: persistent byte-addressed write logs over a base."""
import ctypes
import z3
from .sym import *


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('name', 'size', 'cells', 'log', 'base', 'flags', 'conv', '_fl')

    def __init__(self, name, size, base, cells=None, log=None, flags=frozenset(), conv=None):
        self.name = name
        self.size = size      # int or BV64
        self.base = base      # ('arr', FuncDecl) | ('zero',) | ('raw', bytes) | ('fn', f)
        self.cells = cells if cells is not None else {}
        self.log = log
        self.flags = flags
        self.conv = conv      # Ptr -> integer address
        self._fl = None

    def clone(self):
        return Obj(self.name, self.size, self.base, self.cells, self.log, self.flags, self.conv)

    # ------------------------------------------------------------
    def flushed(self):
        if not self.cells:
            return self
        if self._fl is None:
            o = self.clone()
            log = self.log
            for off in sorted(self.cells):
                n, v = self.cells[off]
                log = (log, 'w', off, n, v)
            o.log = log
            o.cells = {}
            self._fl = o
        return self._fl

    def ival(self, v):
        return self.conv(v) if isinstance(v, Ptr) else v

    def write(self, off, n, val):
        if not isc(off):
            off = simp(off)
        if isc(off):
            o = self.clone()
            c = dict(self.cells)
            ex = c.get(off)
            if ex is None or ex[0] != n:
                for co in list(c):
                    cn, cv = c[co]
                    if co < off + n and off < co + cn:
                        del c[co]
                        if isinstance(cv, Ptr):
                            cv = self.conv(cv)
                        for b in range(cn):
                            if not (off <= co + b < off + n):
                                c[co + b] = (1, extract(cv, 8 * b + 7, 8 * b))
            c[off] = (n, val)
            o.cells = c
            return o
        o = self.flushed().clone()
        o.log = (o.log, 'w', off, n, val)
        return o

    def write_block(self, off, n, fn):
        """n symbolic byte count; fn(rel)->byte"""
        o = self.flushed().clone()
        o.log = (o.log, 'blk', off, n, fn)
        return o

    def base_byte(self, i):
        k = self.base[0]
        if k == 'arr':
            return self.base[1](bv(i, 64))
        if k == 'zero':
            return 0
        if k == 'raw':
            raw = self.base[1]
            if isc(i):
                return raw[i] if i < len(raw) else 0
            r = z3.BitVecVal(0, 8)
            if len(raw) > 4096:
                raise Unsupported('symbolic index into large constant ' + self.name)
            for j in range(len(raw)):
                if raw[j]:
                    r = z3.If(i == j, z3.BitVecVal(raw[j], 8), r)
            return r
        if k == 'fn':
            return self.base[1](i)
        if k == 'live':
            return ctypes.c_ubyte.from_address(self.base[1] + i).value
        raise Unsupported('base ' + k)

    def byte(self, i, node=0):
        """byte at offset i"""
        if node == 0:
            if isc(i):
                c = self.cells
                for d in range(0, 9):
                    e = c.get(i - d)
                    if e is not None and e[0] > d:
                        return extract(self.ival(e[1]), 8 * d + 7, 8 * d)
                for co, (cn, cv) in c.items():
                    if co <= i < co + cn:
                        d = i - co
                        return extract(self.ival(cv), 8 * d + 7, 8 * d)
                node = self.log
            else:
                node = self.flushed().log
        acc = []
        res = None
        while node is not None:
            prev, kind, off, n, val = node
            d = simp(sub(i, off, 64))
            if kind == 'w':
                if isc(d):
                    if d < n:
                        res = extract(self.ival(val), 8 * d + 7, 8 * d)
                        break
                else:
                    v = self.ival(val)
                    if n == 1:
                        acc.append((simp(bv(i, 64) == bv(off, 64)), v))
                    else:
                        w = n * 8
                        if isc(v) and v == 0:
                            bval = 0
                        else:
                            sh = z3.Extract(w - 1, 0, d << 3) if w <= 64 else z3.ZeroExt(w - 64, d << 3)
                            bval = z3.Extract(7, 0, z3.LShR(bv(v, w), sh))
                        acc.append((simp(z3.ULT(d, n)), bval))
                    c = acc[-1][0]
                    if c is True:
                        res = acc.pop()[1]
                        break
                    if c is False:
                        acc.pop()
            else:
                c = simp(ult(d, n, 64)) if not (isc(d) and isc(n)) else (d < n)
                if c is True:
                    res = val(d)
                    break
                if c is not False:
                    acc.append((c, val(d)))
            node = prev
        if res is None:
            res = self.base_byte(i)
        for c, v in reversed(acc):
            res = ite(c, v, res, 8)
        return res

    def read(self, off, n):
        if not isc(off):
            off = simp(off)
        if isc(off):
            e = self.cells.get(off)
            if e is not None and e[0] == n:
                return e[1]
            if self.cells:
                for co, (cn, cv) in self.cells.items():
                    if co < off + n and off < co + cn:
                        if co <= off and off + n <= co + cn:
                            return simp(extract(self.ival(cv), 8 * (off - co + n) - 1, 8 * (off - co)))
                        return simp(concat_le([self.byte(off + j) for j in range(n)]))
            node = self.log
        else:
            node = self.flushed().log
        while node is not None:
            prev, kind, o, wn, val = node
            d = simp(sub(off, o, 64))
            if kind == 'w' and isc(d):
                if d == 0 and wn == n:
                    return val
                if d + n <= wn:
                    return simp(extract(self.ival(val), 8 * (d + n) - 1, 8 * d))
                if d >= wn and d + n <= (1 << 64):
                    node = prev
                    continue
            elif kind == 'blk':
                if isc(off) and isc(o) and off + n <= o < (1 << 46):
                    # block writes are checked to stay inside their object, so they never wrap around to lower offsets
                    node = prev
                    continue
                dn = simp(sub(n, 0, 64))
                c = simp(ult(d, wn, 64))
                if c is False and isc(d) and isc(wn) and d + n <= (1 << 64):
                    node = prev
                    continue
            return simp(concat_le([self.byte(add(off, j, 64)) for j in range(n)]))
        if self.base[0] == 'zero':
            return 0
        if self.base[0] == 'raw' and isc(off) and off + n <= len(self.base[1]):
            return int.from_bytes(self.base[1][off:off + n], 'little')
        return simp(concat_le([self.base_byte(add(off, j, 64)) for j in range(n)]))
