"""Loop cutting: see engine.py.  Every form used for the state at an arbitrary
iteration is re-proved (initial value by construction, preservation by the
solver); forms that are not preserved are dropped to 'arbitrary'."""
import z3
from . import ir
from .ir import sizeof
from .sym import *
from .mem import Obj, Unsupported


def kind_of(ty):
    return ty[0]


def syms(t, cache={}):
    """set of uninterpreted constant/function names in t"""
    if isinstance(t, (int, bool)):
        return frozenset()
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
        else:
            out.add('?quant')
    return out


def subst(t, k, j):
    if isinstance(t, (int, bool)):
        return t
    return z3.substitute(t, (k, bv(j, 64)))


def psub(v, k, j):
    if isinstance(v, Ptr):
        return Ptr(v.base, subst(v.off, k, j))
    return subst(v, k, j)


class View:
    def __init__(self, E, k, st0, st, phis, cells):
        self.E = E
        self.k = k
        self.st0 = st0
        self.st = st
        self.phis = phis      # list of (name, width, init, cur)  (non-linear, integer)
        self.cells = cells


def diffv(a, b):
    """a - b for ints/BV/Ptr"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.base != b.base:
            return None
        return simp(sub(a.off, b.off, 64))
    if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a) if not isc(a) else False:
        return None
    if isc(a) and isc(b):
        return None
    w = (a if not isc(a) else b).size()
    return simp(sub(a, b, w))


class Form:
    """value at iteration k: init + step*k, or arbitrary (fresh symbol)"""

    def __init__(self, init, w, isptr, isbool=False):
        self.init = init
        self.w = w
        self.isptr = isptr
        self.isbool = isbool
        self.step = None      # None = arbitrary
        self.sym = None
        self.base = None

    def at(self, E, k, name):
        if self.step is not None:
            if self.step == 0:
                return self.init
            kk = trunc(k, 64, self.w) if self.w < 64 else k
            if self.w > 64:
                kk = zext(k, 64, self.w)
            d = mul(self.step, kk, self.w)
            if self.isptr:
                return Ptr(self.init.base, add(self.init.off, d, 64))
            return add(self.init, d, self.w)
        if self.isbool:
            self.sym = E.fresh(name, 1)
            return self.sym
        self.sym = E.fresh(name, self.w)
        if self.isptr:
            if isinstance(self.init, Ptr) and self.base is not False:
                return Ptr(self.base if self.base is not None else self.init.base, self.sym)
            raise Unsupported('pointer changes object in loop')
        return self.sym


def same(a, b, w):
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            return eq(a.off, b.off, 64)
        return False
    if w == 1:
        return Iff(a, b)
    return eq(a, b, w)


class RangeForm:
    def __init__(self, off, n, val):
        self.off = off     # term in k
        self.n = n
        self.val = val     # term in k


def obj_writes(E, H, B):
    """writes performed between object states H and B; None if unknown"""
    res = []
    Hf = H.flushed()
    if B.log is H.log:
        for off, (n, v) in B.cells.items():
            e = H.cells.get(off)
            if e is not None and e[0] == n and (e[1] is v or (not isinstance(v, Ptr) and not isinstance(e[1], Ptr) and isc(v) and isc(e[1]) and v == e[1])):
                continue
            res.append((off, n, v))
        for off in H.cells:
            if off not in B.cells:
                n = H.cells[off][0]
                # cell was split; treat whole range as written
                res.append((off, n, simp(concat_le([B.byte(off + i) for i in range(n)]))))
        return res
    node = B.log
    while node is not None and node is not H.log and node is not Hf.log:
        prev, kind, off, n, v = node
        if kind == 'blk':
            return None
        res.append((off, n, v))
        node = prev
    if node is None and H.log is not None and Hf.log is not None:
        return None
    if node is H.log and H.cells and node is not Hf.log:
        return None
    res.reverse()
    for off, (n, v) in B.cells.items():
        e = H.cells.get(off)
        if e is not None and e[0] == n and e[1] is v:
            continue
        res.append((off, n, v))
    return res


def cut_loop(E, f, st0, env0, prev, header, cnt, work, outs, ctx):
    from .engine import Univ, check
    mod = f.mod
    body = f.loops()[header]
    phis = [I for I in f.blocks[header] if I.op == 'phi']
    nphi = len(phis)
    forms = {}
    for I in phis:
        v = None
        for lab, o in I.extra:
            if lab == prev:
                v = E.operand(mod, f, env0, I.ty, o)
                break
        if I.ty[0] in ('st', 'arr'):
            raise Unsupported('aggregate phi')
        isptr = I.ty[0] == 'ptr'
        if isptr:
            v = E.pp(v)
        forms[I.name] = Form(v, E.width(I.ty), isptr, I.ty == ir.I1)
    cells = {}      # base -> {off: (n, Form)}
    ranges = {}     # base -> [RangeForm]
    havoc = set()   # bases fully havocked
    E.fresh_n += 1
    mark = E.fresh_n
    k = z3.BitVec('k!%d' % mark, 64)
    kname = 'k!%d' % mark
    rec = E.record

    def bad(t, allow_after):
        """mentions loop-local symbols other than k?"""
        for s in syms(t):
            if s == kname:
                continue
            if '!' in s:
                tail = s.rsplit('!', 1)[1].split(':')[0]
                if tail.isdigit() and int(tail) >= mark and not s.startswith('A!'):
                    return True
            if s == '?quant':
                return True
        return False

    def mem_at(st, kk, tag):
        """set st.mem to the forms at iteration kk"""
        for b in havoc:
            o = E.obj(st0, b)
            E.fresh_n += 1
            n = Obj(o.name, o.size, ('arr', E.arr('%s~%d!%d' % (b, mark, E.fresh_n))), flags=o.flags, conv=o.conv)
            st.mem[b] = n
        for b, rf in ranges.items():
            if b in havoc:
                continue
            o = E.obj(st0, b)
            for r in rf:
                o = range_write(E, o, r, k, kk)
            st.mem[b] = o
        for b, cs in cells.items():
            if b in havoc:
                continue
            o = E.obj(st, b) if b in ranges else E.obj(st0, b)
            for off, (n, fm) in cs.items():
                o = o.write(off, n, fm.at(E, kk, 'c!%s@%d' % (b, off)))
            st.mem[b] = o

    def head():
        st = st0.copy()
        env = dict(env0)
        for I in phis:
            env[I.name] = forms[I.name].at(E, k, 'p!' + I.name)
        mem_at(st, k, 'h')
        st.pc = st.pc + (z3.ULT(k, bv(1 << 62, 64)),)
        return st, env

    def run(st, env, record):
        E.record = record
        backs, exits, o2 = [], [], []
        try:
            E.exec_from(f, [(st.copy(), env, header, prev, nphi, cnt)], o2, (header, body, backs, exits))
        finally:
            E.record = rec
        return backs, exits, o2

    def latch(benv, bprev, I, bst):
        for lab, o in I.extra:
            if lab == bprev:
                v = E.operand(mod, f, benv, I.ty, o)
                return E.pp(v) if I.ty[0] == 'ptr' else v
        raise Unsupported('latch phi')

    def history(np, backs):
        """for all j < k: the conditions under which iteration j went on"""
        univ = []
        if backs:
            disj = []
            ok = True
            for bst, benv, bprev in backs:
                cs = [c for c in bst.pc[np:] if not bad(c, 0)]
                if not cs:
                    ok = False
                    break
                disj.append(And(cs))
            if ok:
                C = simp(Or(disj))
                if not isinstance(C, bool) and kname in syms(C):
                    matches = {}
                    pts = [0, simp(k - 1)]
                    seen = set()
                    stack = [C]
                    while stack:
                        t = stack.pop()
                        if t.get_id() in seen:
                            continue
                        seen.add(t.get_id())
                        if z3.is_app(t):
                            if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and kname in syms(t.arg(0)):
                                matches.setdefault(t.decl().get_id(), []).append(simp(subst(t.arg(0), k, 0)))
                            if t.num_args() == 2 and z3.is_bv(t.arg(0)):
                                for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                                    if kname in syms(x) and kname not in syms(y):
                                        w = x.size()
                                        if w > 64:
                                            continue
                                        x0 = simp(subst(x, k, 0))
                                        c = simp(bv(simp(subst(x, k, 1)), w) - bv(x0, w))
                                        if isc(c):
                                            if c == 1:
                                                pts.append(simp(zext(simp(bv(y, w) - bv(x0, w)), w, 64)))
                                            elif c == M(w):
                                                pts.append(simp(zext(simp(bv(x0, w) - bv(y, w)), w, 64)))
                            stack.extend(t.children())
                    pts2 = []
                    for p in pts:
                        pts2.append(p)
                    for p in pts[2:]:
                        pts2.append(simp(sub(p, 1, 64)))
                    univ.append(Univ(k, lambda j, C=C: subst(C, k, j), list(matches.items()), pts2))
        return univ

    # ---------------- discovery
    stable = False
    for rnd in range(12):
        sh, eh = head()
        backs, exits, o2 = run(sh, eh, False)
        hist = tuple(history(len(sh.pc), backs))
        for bst, benv, bprev in backs:
            bst.univ = bst.univ + hist
        changed = False
        for bst, benv, bprev in backs:
            if bst.events is not sh.events and bst.events != sh.events:
                raise Unsupported('events inside a loop')
        # phis
        for I in phis:
            fm = forms[I.name]
            vals = [latch(benv, bprev, I, bst) for bst, benv, bprev in backs]
            if fm.step is None and rnd == 0 and not fm.isbool:
                ds = [diffv(v, eh[I.name]) for v in vals]
                if vals and all(isinstance(d, int) for d in ds) and len(set(ds)) == 1:
                    fm.step = ds[0]
                    changed = True
                elif fm.isptr:
                    bs = set(v.base for v in vals)
                    if bs != {fm.init.base}:
                        if fm.init.base is None and len(bs) == 1:
                            raise Unsupported('pointer phi')
                        raise Unsupported('pointer changes object in loop')
            elif fm.step is not None:
                want = fm.at(E, k + 1, '')
                for (bst, benv, bprev), v in zip(backs, vals):
                    c = same(v, want, fm.w)
                    if simp(c) is True:
                        continue
                    if check(E.axioms + list(bst.pc) + [Not(c)], bst.univ, 5000)[0] != 'unsat':
                        fm.step = None
                        changed = True
                        break
        # memory
        for bi, (bst, benv, bprev) in enumerate(backs):
            for b, o in bst.mem.items():
                if b not in sh.mem:
                    if b in st0.mem:
                        raise Unsupported('?')
                    continue
                H = sh.mem[b]
                if o is H or b in havoc:
                    continue
                if 'freed' in o.flags and 'freed' not in H.flags:
                    raise Unsupported('free inside a loop')
                ws = obj_writes(E, H, o)
                if ws is None:
                    havoc.add(b)
                    changed = True
                    continue
                for off, n, v in ws:
                    if isc(off):
                        cs = cells.setdefault(b, {})
                        if off in cs and cs[off][0] == n:
                            fm = cs[off][1]
                            cur = H.read(off, n)
                            if fm.step is None and not getattr(fm, 'tried', False):
                                fm.tried = True
                                ok = True
                                dd = None
                                for bs2, _, _ in backs:
                                    d = diffv(bs2.mem[b].read(off, n), cur)
                                    if not isinstance(d, int) or (dd is not None and d != dd):
                                        ok = False
                                        break
                                    dd = d
                                if ok and dd is not None:
                                    fm.step = dd
                                    changed = True
                                elif fm.isptr:
                                    for bs2, _, _ in backs:
                                        vv = bs2.mem[b].read(off, n)
                                        if not isinstance(vv, Ptr) or vv.base != fm.init.base:
                                            raise Unsupported('pointer cell changes object in loop')
                            elif fm.step is not None:
                                want = fm.at(E, k + 1, '')
                                got = o.read(off, n)
                                c = same(got, want, fm.w)
                                if simp(c) is not True and check(E.axioms + list(bst.pc) + [Not(c)], bst.univ, 5000)[0] != 'unsat':
                                    fm.step = None
                                    changed = True
                        else:
                            if any(co < off + n and off < co + cn for co, (cn, _) in cs.items()) or b in ranges:
                                havoc.add(b)
                                changed = True
                                break
                            iv = E.obj(st0, b).read(off, n)
                            fm = Form(iv, n * 8, isinstance(iv, Ptr))
                            cs[off] = (n, fm)
                            changed = True
                    else:
                        if b in cells or b in ranges:
                            if b in ranges and range_ok(E, backs, b, ranges[b], k, H, sh, check):
                                break
                            if b in ranges and not getattr(ranges[b], 'done', False) and rnd < 4:
                                rf = derive_ranges(E, backs, b, sh, k, bad)
                                if rf is not None and rf != ranges[b]:
                                    ranges[b] = rf
                                    changed = True
                                    havoc.discard(b)
                                    break
                            havoc.add(b)
                            changed = True
                            break
                        rf = derive_ranges(E, backs, b, sh, k, bad)
                        if rf is None:
                            if rnd == 0:
                                # phis may still be unresolved: retry next round
                                changed = True
                            else:
                                havoc.add(b)
                                changed = True
                        else:
                            ranges[b] = rf
                            changed = True
                        break
        if not changed:
            stable = True
            break
    if not stable:
        raise Unsupported('loop summary did not stabilise')

    # ---------------- history of the guard
    sh, eh = head()
    np = len(sh.pc)
    backs, exits, o2 = run(sh, eh, False)
    univ = history(np, backs)
    # ---------------- contract templates (Houdini)
    cands = []
    if E.templates is not None:
        def view(st, kk, env):
            ph = []
            for I in phis:
                fm = forms[I.name]
                if not fm.isptr and not fm.isbool:
                    ph.append((I.name, fm.w, fm.init, env[I.name], fm.step))
            return View(E, kk, st0, st, ph, cells)
        env_init = {I.name: forms[I.name].init for I in phis}
        v0 = view(st0, 0, env_init)
        cands = []
        factfns = []
        for t in E.templates(E, f, header, v0):
            cands.append(t[:2])
            if len(t) > 2:
                factfns.append(t[2])     # lemma instances at the current iteration
        # initial
        alive = []
        for nm, fn in cands:
            c = fn(v0)
            if c is None:
                continue
            if simp(c) is True or check(E.axioms + list(st0.pc) + [Not(c)], st0.univ, 8000)[0] == 'unsat':
                alive.append((nm, fn))
        while True:
            sh, eh = head()
            sh.univ = sh.univ + tuple(univ)
            vh = view(sh, k, eh)
            sh.pc = sh.pc + tuple(x for x in (simp(fn(vh)) for _, fn in alive) if x is not True) + tuple(fa(vh) for fa in factfns)
            backs, exits, o2 = run(sh, eh, False)
            drop = set()
            for bst, benv, bprev in backs:
                env2 = {I.name: latch(benv, bprev, I, bst) for I in phis}
                vb = view(bst, k + 1, env2)
                for i, (nm, fn) in enumerate(alive):
                    if i in drop:
                        continue
                    c = simp(fn(vb))
                    if c is True:
                        continue
                    if check(E.axioms + list(bst.pc) + [Not(c)], bst.univ, 10000)[0] != 'unsat':
                        drop.add(i)
            if not drop:
                break
            alive = [a for i, a in enumerate(alive) if i not in drop]
        cands = alive
    # ---------------- final
    sh, eh = head()
    sh.univ = sh.univ + tuple(univ)
    if cands:
        vh = view(sh, k, eh)
        sh.pc = sh.pc + tuple(x for x in (simp(fn(vh)) for _, fn in cands) if x is not True) + tuple(fa(vh) for fa in factfns)
    backs, exits, o2 = run(sh, eh, rec)
    info = E.loops_cut.setdefault((f.name, header), {})
    info.update(linear=[n for n, fm in forms.items() if fm.step is not None],
                arbitrary=[n for n, fm in forms.items() if fm.step is None],
                cells={b: [(o, c[1].step) for o, c in cs.items()] for b, cs in cells.items() if b not in havoc},
                ranges=[b for b in ranges if b not in havoc], havoc=sorted(havoc),
                history=len(univ), templates=[n for n, _ in cands])
    outs.extend(o2)
    for st, env, pv, blk, c2 in exits:
        c2 = dict(c2)
        c2.pop(header, None)
        E.goto(f, st, env, pv, blk, c2, work, outs, ctx, True)


def derive_ranges(E, backs, b, sh, k, bad):
    """closed form for the writes of one iteration; None if not linear"""
    H = sh.mem[b]
    per = []
    for bst, benv, bprev in backs:
        o = bst.mem.get(b)
        if o is None:
            return None
        ws = obj_writes(E, H, o) if o is not H else []
        if ws is None:
            return None
        per.append((bst, ws))
    # align by offset
    offs = []
    for bst, ws in per:
        for off, n, v in ws:
            for o2, n2 in offs:
                if n2 == n and simp(eq(off, o2, 64)) is True:
                    break
            else:
                offs.append((off, n))
    out = []
    for off, n in offs:
        if bad(off, 0):
            return None
        val = None
        for bst, ws in per:
            v = None
            for o2, n2, vv in ws:
                if n2 == n and simp(eq(off, o2, 64)) is True:
                    v = vv
            if isinstance(v, Ptr):
                v = E.p2i(v)
            if v is None:
                v = E.obj(sh, b).read(off, n)
                if isinstance(v, Ptr):
                    v = E.p2i(v)
            if not isc(v) and bad(v, 0):
                return None
            if val is None:
                val = v
            else:
                cs = bst.pc[len(sh.pc):]
                c = And(list(cs))
                if bad(c, 0):
                    return None
                val = ite(c, v, val, n * 8)
        i0 = simp(subst(off, k, 0))
        i1 = simp(subst(off, k, 1))
        c = simp(sub(i1, i0, 64))
        if not isc(c) or c == 0:
            return None
        c = sg(c, 64)
        if abs(c) > 4096 or (c < 0 and -c != n) or abs(c) < n:
            return None
        r = RangeForm(off, n, val)
        r.i0 = i0
        r.c = c
        out.append(r)
    return out


def range_write(E, o, r, k, kk):
    n, c = r.n, abs(r.c)
    old = o

    def val_byte(j, rem):
        v = r.val if isc(r.val) else z3.substitute(r.val, (k, bv(j, 64)))
        if n == 1:
            return v
        if isc(rem):
            return extract(bv(v, n * 8), 8 * rem + 7, 8 * rem) if rem < n else None
        w = n * 8
        sh = z3.Extract(w - 1, 0, rem << 3) if w <= 64 else z3.ZeroExt(w - 64, rem << 3)
        return z3.Extract(7, 0, z3.LShR(bv(v, w), sh))
    if r.c > 0:
        def fn(d):
            j = simp(udiv(d, c, 64))
            rem = simp(sub(d, mul(j, c, 64), 64))
            vb = val_byte(j, rem)
            if c == n:
                return simp(vb)
            ob = old.byte(simp(add(r.i0, d, 64)))
            if isc(rem):
                return vb if rem < n else ob
            return ite(ult(rem, n, 64), vb, ob, 8)
        return o.write_block(r.i0, simp(mul(kk, c, 64)), fn)
    # descending, contiguous
    start = simp(add(sub(r.i0, mul(kk, c, 64), 64), c, 64))
    tot = simp(mul(kk, c, 64))

    def fn(d):
        t = simp(sub(sub(tot, d, 64), 1, 64))
        j = simp(udiv(t, c, 64))
        rem = simp(sub(c - 1, sub(t, mul(j, c, 64), 64), 64))
        return simp(val_byte(j, rem))
    return o.write_block(start, tot, fn)


def range_ok(E, backs, b, rfs, k, H, sh, check):
    """is the closed form preserved by one iteration?"""
    st0obj = None
    x = E.fresh('x', 64)
    # rebuild form at k+1 over the same initial object: H was built as form(k) over init
    node = H
    init = getattr(rfs[0], 'init_obj', None)
    for bst, benv, bprev in backs:
        o = bst.mem[b]
        want = None
        base = E._range_init.get(b) if hasattr(E, '_range_init') else None
        # H.log chain: strip the form writes
        init = H
        log = init.log
        for _ in rfs:
            if log is None:
                return False
            log = log[0]
        base = Obj(H.name, H.size, H.base, {}, log, H.flags, H.conv)
        w = base
        for r in rfs:
            w = range_write(E, w, r, k, k + 1)
        goal = eq(o.byte(x), w.byte(x), 8)
        if simp(goal) is True:
            continue
        inb = ult(x, H.size, 64) if H.size is not None else True
        r = check(E.axioms + list(bst.pc) + [inb, Not(goal)], bst.univ, 15000)[0]
        if r != 'unsat':
            return False
    return True
