"""Symbolic execution / VC generation over LLVM IR.

run_function() yields the set of path outcomes of a function from a symbolic
entry state.  Loops are either unrolled completely (when their trip count is
decided) or cut: the state at the loop head is generalised to an arbitrary
iteration k and everything the loop changes is described by invariants that
are *derived and re-checked* on every run:
  - linear header values        p = p0 + c*k
  - linear memory cells         m = m0 + c*k
  - array ranges written        out[i0 + c*j .. +n) = f(j) for all j < k
  - history of the loop guard   for all j < k: guard(j)
  - templates given by a contract (Houdini: kept only if inductive)
"""
import os, time
import z3
from . import ir
from .ir import sizeof, layout
from .sym import *
from .mem import Obj, Unsupported


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Budget(Exception):
    pass


class Dead(Exception):
    """path ends here (obligation failed concretely / infeasible)"""
    pass


class StopPath(Exception):
    """a contract hook ends the execution here (its post-state is the current state)"""
    def __init__(self, st, ret=None):
        self.st = st
        self.ret = ret


class Univ:
    """for all j: lo <= j < hi -> body(j);   matches: [(funcdecl, idx0 term)]"""
    __slots__ = ('hi', 'body', 'matches', 'points')

    def __init__(self, hi, body, matches, points):
        self.hi = hi
        self.body = body
        self.matches = matches
        self.points = points


class State:
    __slots__ = ('pc', 'mem', 'events', 'ghost', 'univ', 'writes')

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.events = ()
        self.ghost = {}
        self.univ = ()

    def copy(self):
        s = State()
        s.pc = self.pc
        s.mem = dict(self.mem)
        s.events = self.events
        s.ghost = dict(self.ghost)
        s.univ = self.univ
        return s


class Obligation:
    __slots__ = ('name', 'pc', 'univ', 'goal', 'line', 'fn', 'status', 'backend', 'time', 'model', 'state', 'ret', 'kind')

    def __init__(self, name, pc, univ, goal, line=None, fn=None, state=None, kind='auto'):
        self.name = name
        self.pc = pc
        self.univ = univ
        self.goal = goal
        self.line = line
        self.fn = fn
        self.status = None
        self.backend = None
        self.time = 0
        self.model = None
        self.state = state
        self.ret = None
        self.kind = kind


# ---------------------------------------------------------------- solving
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0


STATS = Stats()


def collect_apps(ts, decls, out, seen):
    stack = list(ts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                k = t.decl().get_id()
                if k in decls:
                    out.setdefault(k, {})[t.arg(0).get_id()] = t.arg(0)
            stack.extend(t.children())


def instantiate(forms, univ, rounds=3, limit=400):
    """ground instances of the universal facts relevant to forms"""
    out = []
    done = set()
    decls = {}
    for u in univ:
        for d, _ in u.matches:
            decls.setdefault(d, []).append(u)

    def inst(u, j):
        j = simp(j)
        key = (id(u), j if isc(j) else j.get_id())
        if key in done or len(done) > limit:
            return None
        done.add(key)
        f = Implies(ult(j, u.hi, 64), u.body(j))
        f = simp(f)
        if f is True:
            return None
        if f is False:
            f = z3.BoolVal(False)
        keep.append(j)
        return f
    keep = []
    for u in univ:
        for p in u.points:
            f = inst(u, p)
            if f is not None:
                out.append(f)
    seen = set()
    apps = {}
    collect_apps([f for f in forms if not isinstance(f, bool)] + out, decls, apps, seen)
    for r in range(rounds):
        new = []
        for u in univ:
            for d, i0s in u.matches:
                for t in list(apps.get(d, {}).values()):
                    for i0 in i0s:
                        f = inst(u, bv(t, 64) - bv(i0, 64))
                        if f is not None:
                            new.append(f)
        if not new:
            break
        out += new
        before = sum(len(v) for v in apps.values())
        collect_apps(new, decls, apps, seen)
        if sum(len(v) for v in apps.values()) == before:
            break
    return out


def check(forms, univ=(), timeout=20000, model=False):
    """('sat'|'unsat'|'unknown', model)"""
    fs = []
    for f in forms:
        if isinstance(f, (bool, int)):
            if not f:
                return 'unsat', None
            continue
        fs.append(f)
    if univ:
        fs = fs + instantiate(fs, univ)
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*fs)
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t0
    r = str(r)
    if r == 'sat' and model:
        return r, s.model()
    return r, None


class Engine:
    X = None
    def __init__(self, modules, stubs=None):
        self.modules = modules
        self.stubs = stubs or {}
        self.oblig = []
        self.record = True
        self.axioms = []          # global assumptions (addresses etc.)
        self.ptr_alias = {}       # term id -> (term, Ptr)
        self.addr_syms = {}       # term id -> base
        self.addrs = {}           # base -> term
        self.cut = {}             # (fn, header) -> True
        self.unroll = 6
        self.max_conc = 4096
        self.bounded = False      # bounded mode: drop paths beyond unroll
        self.truncated = False
        self.fresh_n = 0
        self.flat = None          # name of the flat heap object
        self.flat_ok = None       # fn(st, addr, n, write) -> condition
        self.gstate = {}          # global name -> builder
        self.use_init = set()     # non-const globals whose initializer is the entry value
        self.templates = None     # contract invariants callback
        self.feas_timeout = 4000
        self.steps = 0
        self.max_steps = 400000
        self.trace_calls = []
        self.called = set()
        self.inlined = set()
        self.deadline = None
        self.loops_cut = {}
        self.concrete_map = None  # replay: list of (addr, size, base)
        self.default_ext = None
        self.conc_indirect = True
        self.check_overlap = True
        self.depth = 0
        self.demangled = {}
        self.ndvals = {}
        self.default_ext_c = None
        self.cut_all = False      # generalise every loop at once instead of trying to unroll it
        self.div_facts = None     # {}: signed division by a constant is described by its defining equation (fresh quotient and remainder)
        self.mul_uf = False       # products of unknowns are an uninterpreted function (with lemma instances from the contract)
        self.stopped = []         # states where a hook ended the execution
        self.read_hook = None     # fn(E, st, base, off, n)

    # -------------------------------------------------------- helpers
    def fresh(self, name, w):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        if w == 1:
            return z3.Bool(n)
        return z3.BitVec(n, w)

    def arr(self, name):
        return UF('M:' + name, [64], 8)

    def addr(self, base):
        if base is None:
            return 0
        if self.concrete_map is not None:
            for a, n, b in self.concrete_map:
                if b == base:
                    return a
        t = self.addrs.get(base)
        if t is None:
            t = z3.BitVec('A!' + base, 64)
            self.addrs[base] = t
            self.addr_syms[t.get_id()] = base
            self.axioms.append(z3.And(z3.UGE(t, 0x10000), z3.ULT(t, 1 << 47)))
        return t

    def p2i(self, p):
        if p.base is None:
            return p.off
        return add(self.addr(p.base), p.off, 64)

    def i2p(self, v):
        if isinstance(v, Ptr):
            return v
        if isc(v):
            if self.concrete_map is not None and v:
                end = None
                for a, n, b in self.concrete_map:
                    if a <= v < a + n:
                        return Ptr(b, v - a)
                    if v == a + n:
                        end = Ptr(b, n)
                if end:
                    return end
            return Ptr(None, v)
        s = simp(v)
        if isc(s):
            return self.i2p(s)
        a = self.ptr_alias.get(s.get_id())
        if a is not None:
            return a[1]
        b = self.addr_syms.get(s.get_id())
        if b is not None:
            return Ptr(b, 0)
        if z3.is_app_of(s, z3.Z3_OP_BADD):
            ch = s.children()
            for i, c in enumerate(ch):
                b = self.addr_syms.get(c.get_id())
                al = self.ptr_alias.get(c.get_id())
                if b is not None or al is not None:
                    rest = 0
                    for j, d in enumerate(ch):
                        if j != i:
                            rest = add(rest, simp(d), 64)
                    rest = simp(rest)
                    if al is not None:
                        return al[1] + rest
                    return Ptr(b, rest)
        return Ptr(None, s)

    def new_obj(self, st, name, size, base=None, flags=()):
        if base is None:
            base = ('arr', self.arr(name))
        o = Obj(name, size, base, flags=frozenset(flags), conv=self.p2i)
        st.mem[name] = o
        return Ptr(name, 0)

    def obj(self, st, base):
        o = st.mem.get(base)
        if o is None:
            if base and base.startswith('g:'):
                o = self.make_global(st, base)
                st.mem[base] = o
                return o
            raise Unsupported('no object ' + str(base))
        return o

    # globals -----------------------------------------------------------
    def gname(self, mod, name):
        rhs = mod.globals.get(name)
        if rhs is not None and (rhs.startswith('internal') or rhs.startswith('private')):
            return 'g:%d:%s' % (self.modules.index(mod), name)
        return 'g::' + name

    def gdef(self, base):
        _, mi, name = base.split(':', 2)
        if mi:
            return self.modules[int(mi)], name
        best = None
        for m in self.modules:
            if name in m.globals:
                t = m.ginit(name)
                if t[1] is not None:
                    return m, name
                best = (m, name)
        return best

    def make_global(self, st, base):
        b = self.gstate.get(base.split(':', 2)[2])
        g = self.gdef(base)
        if g is None:
            raise Unsupported('unknown global ' + base)
        mod, name = g
        ty, init, const = mod.ginit(name)
        size = sizeof(ty)
        if b is not None:
            o = Obj(base, size, ('arr', self.arr(base)), conv=self.p2i)
            o = b(self, o) or o
            return o
        if init is not None and (const or name in self.use_init or self.use_init == 'all'):
            o = Obj(base, size, ('zero',), conv=self.p2i, flags=frozenset(['const'] if const else []))
            return self.init_into(mod, o, 0, ty, init)
        return Obj(base, size, ('arr', self.arr(base)), conv=self.p2i)

    def init_into(self, mod, o, off, ty, init):
        k = init[0]
        if k == 'zero' or k == 'undef':
            return o
        if k == 'bytes':
            if off == 0 and len(init[1]) == o.size:
                o = o.clone()
                o.base = ('raw', init[1])
                return o
            for i, b in enumerate(init[1]):
                if b:
                    o = o.write(off + i, 1, b)
            return o
        if k == 'agg':
            els = init[1]
            if ty[0] == 'arr':
                es = sizeof(ty[2])
                if ty[2][0] == 'i' and all(e[1][0] == 'c' for e in els) and off == 0 and len(els) * es == o.size:
                    o = o.clone()
                    o.base = ('raw', b''.join(int(e[1][1]).to_bytes(es, 'little') for e in els))
                    return o
                for i, (t, e) in enumerate(els):
                    o = self.init_into(mod, o, off + i * es, t, e)
                return o
            offs = layout(ty)[2]
            for i, (t, e) in enumerate(els):
                o = self.init_into(mod, o, off + offs[i], t, e)
            return o
        v = self.operand(mod, None, None, ty, init)
        n = sizeof(ty)
        if isinstance(v, bool):
            v = int(v)
        return o.write(off, n, v)

    # operands ------------------------------------------------------------
    def operand(self, mod, fn, env, ty, o):
        k = o[0]
        if k == 'l':
            return env[o[1]]
        if k == 'c':
            if ty == ir.I1:
                return bool(o[1])
            return o[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(mod, o[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'gep':
            st, ops = o[1], o[2]
            vals = [self.operand(mod, fn, env, t, v) for t, v in ops]
            return self.gep(st, ops, vals)
        if k == 'cast':
            _, op, (t, v), t2 = o
            x = self.operand(mod, fn, env, t, v)
            return self.cast(op, x, t, t2)
        if k == 'cbin':
            _, op, (t, a), (_, b) = o
            return self.binop(op, self.operand(mod, fn, env, t, a), self.operand(mod, fn, env, t, b), t)
        if k == 'ba':
            return Ptr('ba:%s:%s' % (o[1], o[2]), 0)
        if k == 'agg':
            return tuple(self.operand(mod, fn, env, t, v) for t, v in o[1])
        raise Unsupported('operand ' + k)

    def global_ptr(self, mod, name):
        if name in mod.functions or name in mod.declares or (name not in mod.globals and any(
                name in m.functions for m in self.modules)):
            return Ptr('fn:' + name, 0)
        if name in mod.aliases:
            m = ir.re.search(r'@("[^"]*"|[-\w$.]+)\s*$', mod.aliases[name])
            return self.global_ptr(mod, m.group(1).strip('"'))
        return Ptr(self.gname(mod, name), 0)

    def undef(self, ty):
        k = ty[0]
        if k == 'i':
            return self.fresh('undef', ty[1])
        if k == 'ptr':
            return Ptr(None, self.fresh('undefp', 64))
        if k == 'float':
            return self.fresh('undef', 32)
        if k == 'double':
            return self.fresh('undef', 64)
        if k == 'st':
            return tuple(self.undef(t) for t in ty[1])
        if k == 'arr':
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        if k == 'fp80':
            return self.fresh('undef', 80)
        raise Unsupported('undef %r' % (ty,))

    def zero(self, ty):
        k = ty[0]
        if k == 'i':
            return False if ty[1] == 1 else 0
        if k in ('float', 'double', 'fp80'):
            return 0
        if k == 'ptr':
            return NULL
        if k == 'st':
            return tuple(self.zero(t) for t in ty[1])
        if k == 'arr':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %r' % (ty,))

    def gep(self, st, ops, vals):
        p = vals[0]
        if not isinstance(p, Ptr):
            p = self.i2p(p)
        off = p.off
        ty = st
        for i in range(1, len(ops)):
            v = vals[i]
            it = ops[i][0]
            if i == 1:
                es = sizeof(ty)
            elif ty[0] == 'st':
                offs = layout(ty)[2]
                off = add(off, offs[v], 64)
                ty = ty[1][v]
                continue
            else:
                ty = ty[2]
                es = sizeof(ty)
            v = sext(v, it[1], 64)
            off = add(off, mul(v, es, 64), 64)
        return Ptr(p.base, off)

    def width(self, ty):
        k = ty[0]
        if k == 'i':
            return ty[1]
        if k == 'float':
            return 32
        if k in ('double', 'ptr'):
            return 64
        if k == 'fp80':
            return 80
        raise Unsupported('width %r' % (ty,))

    def divrem(self, st, x, c, w):
        """truncated division of x by the constant c > 0: (quotient, remainder), with the defining facts"""
        key = (x.get_id(), c, w)
        h = self.div_facts.get(key)
        if h is None:
            q = self.fresh('quot', w)
            r = simp(sext(self.fresh('rem', 8), 8, w)) if c < 128 < (1 << w) and w > 8 else self.fresh('rem', w)
            R = self.div_facts.get(('bound', x.get_id()), 1 << (w - 1))
            self.div_facts[('bound', q.get_id())] = R // c
            neg = slt(x, 0, w)
            f = tuple(z3.simplify(t) for t in (eq(x, add(mul(q, c, w), r, w), w), sle(q, R // c, w), sge(q, -(R // c) & M(w), w), slt(r, c, w), sgt(r, -c & M(w), w),
                    Or(eq(r, 0, w), Iff(neg, slt(r, 0, w))), Or(eq(q, 0, w), Iff(neg, slt(q, 0, w)))))
            h = self.div_facts[key] = (q, r, f, x)
        if not any(c_ is h[2][0] for c_ in st.pc):
            st.pc = st.pc + h[2]
        return h[0], h[1]

    def binop(self, op, a, b, ty):
        if ty[0] == 'vec':
            raise Unsupported('vector')
        w = self.width(ty)
        if w == 1:
            if op in ('and',):
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, Ptr):
            a = self.p2i(a)
        if isinstance(b, Ptr):
            b = self.p2i(b)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if w == 80:
                raise Unsupported('fp80')
            return fop(op, [a, b], w)
        if op == 'mul' and self.mul_uf and not isc(a) and not isc(b):
            return UF('umul%d' % w, [w, w], w)(a, b)
        f = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr,
             'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op]
        return f(a, b, w)

    def cast(self, op, x, t, t2):
        if op == 'bitcast' or op == 'addrspacecast':
            return x
        if op == 'ptrtoint':
            v = self.p2i(x)
            return v if t2[1] == 64 else trunc(v, 64, t2[1])
        if op == 'inttoptr':
            if t[1] != 64:
                x = zext(x, t[1], 64)
            return self.i2p(x)
        if op == 'zext':
            if t[1] == 1:
                return b2i(x, t2[1])
            return zext(x, t[1], t2[1])
        if op == 'sext':
            if t[1] == 1:
                return ite(x, M(t2[1]), 0, t2[1])
            return sext(x, t[1], t2[1])
        if op == 'trunc':
            if isinstance(x, Ptr):
                x = self.p2i(x)
            v = trunc(x, t[1], t2[1])
            if t2[1] == 1:
                return ne(v, 0, 1)
            return v
        if op == 'sitofp':
            return itofp(x, t[1], self.width(t2), True)
        if op == 'uitofp':
            if t[1] == 1:
                x = b2i(x, 8)
                t = ('i', 8)
            return itofp(x, t[1], self.width(t2), False)
        if op == 'fptosi':
            return fptosi(x, self.width(t), t2[1])
        if op == 'fptoui':
            return fptoui(x, self.width(t), t2[1])
        if op == 'fpext':
            return fpext(x)
        if op == 'fptrunc':
            return fptrunc(x)
        raise Unsupported('cast ' + op)

    # obligations -----------------------------------------------------------
    def require(self, st, cond, name, line=None, fn=None, kind='auto'):
        """emit obligation, then assume it"""
        cond = simp(cond)
        if self.record:
            self.oblig.append(Obligation(name, st.pc, st.univ, cond, line, fn, st, kind))
        if cond is True:
            return
        if cond is False:
            raise Dead(name)
        st.pc = st.pc + (cond,)

    def assume(self, st, cond):
        cond = simp(cond)
        if cond is True:
            return True
        if cond is False:
            return False
        st.pc = st.pc + (cond,)
        return True

    def feasible(self, st, cond=True):
        if isinstance(cond, bool) and not cond:
            return False
        if not st.pc and cond is True:
            return True
        r, _ = check(list(self.axioms) + list(st.pc) + [cond], st.univ, self.feas_timeout)
        return r != 'unsat'

    # memory ------------------------------------------------------------------
    def resolve(self, st, p, n, write, line=None, fn=None, what='access'):
        """returns (base, off) after emitting the bounds obligation"""
        if not isinstance(p, Ptr):
            p = self.i2p(p)
        if p.base is None:
            q = self.i2p(p.off)
            if q.base is not None:
                p = q
        if p.base is None:
            off = simp(p.off)
            if isc(off) and self.flat is None:
                self.require(st, False, 'null/invalid pointer %s' % what, line, fn, 'memory')
            if self.flat is None:
                # a pointer the contract knows nothing about: only acceptable if the path is infeasible
                if not self.feasible(st):
                    raise Dead('infeasible')
                raise Unsupported('unresolved pointer %s at line %s' % (off, line))
            if self.flat_ok is not None:
                self.require(st, self.flat_ok(self, st, off, n, write), 'valid %s address' % what, line, fn, 'memory')
            return self.flat, off
        if p.base.startswith('fn:') or p.base.startswith('ba:'):
            raise Unsupported('data access to code')
        o = self.obj(st, p.base)
        off = simp(p.off)
        if self.read_hook is not None and not write:
            self.read_hook(self, st, p.base, off, n)
        size = o.size
        if 'freed' in o.flags:
            self.require(st, False, 'use after free of %s' % p.base, line, fn, 'memory')
        if write and 'const' in o.flags:
            self.require(st, False, 'write to constant %s' % p.base, line, fn, 'memory')
        if isc(size) and isc(off) and isc(n):
            if off + n > size:
                self.require(st, False, 'in-bounds %s of %s' % (what, p.base), line, fn, 'memory')
            elif self.record:
                self.oblig.append(Obligation('in-bounds %s of %s' % (what, p.base), (), (), True, line, fn, None, 'memory'))
        else:
            n64 = bv(n, 64)
            cond = And(ule(n, size, 64), ule(off, sub(size, n, 64), 64))
            self.require(st, cond, 'in-bounds %s of %s' % (what, p.base), line, fn, 'memory')
        return p.base, off

    def load(self, st, p, ty, line=None, fn=None):
        if ty[0] in ('st', 'arr'):
            if ty[0] == 'st':
                return tuple(self.load(st, self.pp(p) + o, t, line, fn) for o, t in zip(layout(ty)[2], ty[1]))
            es = sizeof(ty[2])
            return tuple(self.load(st, self.pp(p) + i * es, ty[2], line, fn) for i in range(ty[1]))
        if ty[0] == 'vec':
            raise Unsupported('vector load')
        n = 10 if ty[0] == 'fp80' else sizeof(ty)
        b, off = self.resolve(st, p, n, False, line, fn, 'read')
        v = self.obj(st, b).read(off, n)
        if ty[0] == 'ptr':
            return self.i2p(v)
        if isinstance(v, Ptr):
            v = self.p2i(v)
        if ty == ir.I1:
            return ne(extract(v, 0, 0), 0, 1)
        return v

    def pp(self, p):
        return p if isinstance(p, Ptr) else self.i2p(p)

    def store(self, st, p, ty, v, line=None, fn=None):
        if ty[0] in ('st', 'arr'):
            offs = layout(ty)[2] if ty[0] == 'st' else [i * sizeof(ty[2]) for i in range(ty[1])]
            ts = ty[1] if ty[0] == 'st' else [ty[2]] * ty[1]
            for o, t, x in zip(offs, ts, v):
                self.store(st, self.pp(p) + o, t, x, line, fn)
            return
        if ty[0] == 'vec':
            raise Unsupported('vector store')
        n = 10 if ty[0] == 'fp80' else sizeof(ty)
        b, off = self.resolve(st, p, n, True, line, fn, 'write')
        if ty == ir.I1:
            v = b2i(v, 8)
        if isinstance(v, Ptr) and v.base is None:
            v = v.off
        st.mem[b] = self.obj(st, b).write(off, n, v)

    # contract-side accessors (no obligations)
    def rd(self, st, p, n):
        p = self.pp(p)
        if p.base is None:
            q = self.i2p(p.off)
            if q.base is not None:
                p = q
        b = p.base if p.base is not None else self.flat
        v = self.obj(st, b).read(p.off, n)
        return self.p2i(v) if isinstance(v, Ptr) else v

    def rdp(self, st, p):
        p = self.pp(p)
        b = p.base if p.base is not None else self.flat
        return self.i2p(self.obj(st, b).read(p.off, 8))

    def wr(self, st, p, n, v):
        p = self.pp(p)
        b = p.base if p.base is not None else self.flat
        st.mem[b] = self.obj(st, b).write(p.off, n, v)

    # execution --------------------------------------------------------------
    def find(self, name):
        for m in self.modules:
            if name in m.functions:
                return m.fn(name)
        for m in self.modules:
            if name in m.aliases:
                mm = ir.re.search(r'@("[^"]*"|[-\w$.]+)\s*$', m.aliases[name])
                return self.find(mm.group(1).strip('"'))
        return None

    def call(self, st, name, args, inst=None, mod=None):
        """returns list of (state, ret)"""
        from . import builtins
        self.called.add(name)
        h = self.stubs.get(name)
        if h is None and name.startswith('llvm.'):
            h = builtins.intrinsic(name)
        if h is None:
            h = builtins.LIB.get(name)
        if h is not None:
            r = h(self, st, args, inst)
            if r is None:
                return [(st, None)]
            if isinstance(r, list):
                return r
            return [(st, r)]
        f = None
        if mod is not None and name in mod.functions:
            f = mod.fn(name)
        if f is None:
            f = self.find(name)
        if f is None:
            if self.default_ext is not None:
                r = self.default_ext(self, st, name, args, inst)
                if isinstance(r, list):
                    return r
                return [(st, r)]
            raise Unsupported('external call ' + name)
        self.inlined.add(name)
        if self.depth > 60:
            raise Unsupported('call depth in ' + name)
        self.depth += 1
        try:
            return self.run_function(f, args, st)
        finally:
            self.depth -= 1

    def run_function(self, f, args, st):
        f.parse()
        env = {}
        for (ty, nm, at), a in zip(f.params, args):
            if nm is None:
                continue
            env[nm] = a
        # unnamed params are numbered
        i = 0
        for (ty, nm, at), a in zip(f.params, args):
            if nm is None:
                env['%%%d' % i] = a
                i += 1
        entry = next(iter(f.blocks))
        outs = []
        self.exec_from(f, [(st, env, entry, None, 0, {})], outs, None)
        return outs

    def exec_from(self, f, work, outs, ctx):
        """ctx: None or loop-body context (header, body set, backs, exits)"""
        mod = f.mod
        while work:
            st, env, blk, prev, idx, cnt = work.pop()
            try:
                self.exec_path(f, mod, st, env, blk, prev, idx, cnt, work, outs, ctx)
            except Dead:
                pass
            except StopPath as e:
                if self.record:
                    self.stopped.append((e.st, e.ret))

    def goto(self, f, st, env, prev, blk, cnt, work, outs, ctx, concrete):
        loops = f.loops()
        if ctx is not None:
            header, body, backs, exits = ctx
            if blk == header:
                backs.append((st, env, prev))
                return
            if blk not in body:
                exits.append((st, env, prev, blk, cnt))
                return
        if blk in loops:
            inside = prev in loops[blk]
            key = (f.name, blk)
            if not inside:
                cnt = dict(cnt)
                cnt[blk] = (0, 0, cnt.get('$', 0))
                if (key in self.cut or self.cut_all) and not self.bounded:
                    self.cut_loop(f, st, env, prev, blk, cnt, work, outs, ctx)
                    return
            else:
                n, s, last = cnt.get(blk, (0, 0, 0))
                n += 1
                now = cnt.get('$', 0)
                if now > last:
                    s += 1
                cnt = dict(cnt)
                cnt[blk] = (n, s, now)
                lim = self.unroll
                if s > lim or n > self.max_conc:
                    if self.bounded:
                        self.truncated = True
                        return
                    raise NeedCut(key)
        elif f._order and blk not in loops:
            pass
        work.append((st, env, blk, prev, 0, cnt))

    def exec_path(self, f, mod, st, env, blk, prev, idx, cnt, work, outs, ctx):
        while True:
            insts = f.blocks[blk]
            n = len(insts)
            # phis in parallel
            if idx == 0:
                newv = []
                while idx < n and insts[idx].op == 'phi':
                    I = insts[idx]
                    for lab, v in I.extra:
                        if lab == prev:
                            newv.append((I.name, self.operand(mod, f, env, I.ty, v)))
                            break
                    else:
                        raise Unsupported('phi without incoming')
                    idx += 1
                if newv:
                    env = dict(env)
                    for k, v in newv:
                        env[k] = v
            jumped = False
            while idx < n:
                I = insts[idx]
                idx += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('step budget')
                if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                    raise Budget('time budget')
                op = I.op
                if op == 'br':
                    if len(I.extra) == 1:
                        nxt = I.extra[0]
                        if nxt in f.loops() or ctx is not None:
                            self.goto(f, st, env, blk, nxt, cnt, work, outs, ctx, True)
                            return
                        prev, blk, idx = blk, nxt, 0
                        jumped = True
                        break
                    c = simp(self.operand(mod, f, env, ir.I1, I.a[0]))
                    if isinstance(c, (bool, int)):
                        nxt = I.extra[0] if c else I.extra[1]
                        if nxt in f.loops() or ctx is not None:
                            self.goto(f, st, env, blk, nxt, cnt, work, outs, ctx, True)
                            return
                        prev, blk, idx = blk, nxt, 0
                        jumped = True
                        break
                    tf = self.feasible(st, c)
                    ff = self.feasible(st, z3.Not(c)) if tf else True
                    conc = not (tf and ff)
                    # mark loop branch as symbolic only if both sides feasible
                    if ff:
                        s2 = st.copy()
                        if not conc:
                            s2.pc = s2.pc + (simp(z3.Not(c)),)
                        elif True:
                            s2.pc = s2.pc + (simp(z3.Not(c)),)
                        self.goto(f, s2, dict(env), blk, I.extra[1], self.mark(f, blk, cnt, conc), work, outs, ctx, conc)
                    if tf:
                        s1 = st.copy()
                        s1.pc = s1.pc + (c,)
                        self.goto(f, s1, env, blk, I.extra[0], self.mark(f, blk, cnt, conc), work, outs, ctx, conc)
                    return
                if op == 'switch':
                    c = self.operand(mod, f, env, I.ty, I.a[0])
                    c = simp(c) if not isinstance(c, Ptr) else c
                    w = I.ty[1]
                    dflt, cases = I.extra
                    if isc(c):
                        nxt = dflt
                        for v, l in cases:
                            if v == c:
                                nxt = l
                                break
                        self.goto(f, st, env, blk, nxt, cnt, work, outs, ctx, True)
                        return
                    rest = st.copy()
                    bylab = {}
                    for v, l in cases:
                        bylab.setdefault(l, []).append(v)
                    for l, vs in bylab.items():
                        cond = Or([eq(c, v, w) for v in vs])
                        if self.feasible(st, cond):
                            s2 = st.copy()
                            s2.pc = s2.pc + (cond,)
                            self.goto(f, s2, dict(env), blk, l, cnt, work, outs, ctx, False)
                    cond = And([ne(c, v, w) for v, _ in cases])
                    if self.feasible(st, cond):
                        rest.pc = rest.pc + (simp(cond),)
                        self.goto(f, rest, env, blk, dflt, cnt, work, outs, ctx, False)
                    return
                if op == 'indirectbr':
                    c = self.pp(self.operand(mod, f, env, ir.PTR, I.a[0]))
                    if c.base is None or not c.base.startswith('ba:'):
                        raise Unsupported('indirectbr target %r' % (c,))
                    lab = c.base.rsplit(':', 1)[1]
                    if not lab.startswith('%'):
                        lab = '%' + lab
                    self.goto(f, st, env, blk, lab, cnt, work, outs, ctx, True)
                    return
                if op == 'ret':
                    r = None
                    if I.a:
                        r = self.operand(mod, f, env, I.ty, I.a[0])
                    outs.append((st, r))
                    return
                if op == 'unreachable':
                    return
                if op == 'call' or op == 'invoke':
                    res = self.do_call(f, mod, st, env, I)
                    if op == 'invoke':
                        for s2, r in res:
                            e2 = dict(env)
                            if I.name:
                                e2[I.name] = r
                            self.goto(f, s2, e2, blk, I.extra['normal'], cnt, work, outs, ctx, True)
                        return
                    if len(res) == 1:
                        st, r = res[0]
                        if I.name:
                            env = dict(env)
                            env[I.name] = r
                        continue
                    for s2, r in res:
                        e2 = dict(env)
                        if I.name:
                            e2[I.name] = r
                        work.append((s2, e2, blk, prev, idx, cnt))
                    return
                if op == 'select':
                    c = simp(self.operand(mod, f, env, ir.I1, I.a[0]))
                    a = self.operand(mod, f, env, I.ty, I.a[1])
                    b = self.operand(mod, f, env, I.ty, I.a[2])
                    if isinstance(c, (bool, int)):
                        r = a if c else b
                    elif I.ty[0] in ('ptr', 'st'):
                        e2 = dict(env)
                        e2[I.name] = b
                        s2 = st.copy()
                        s2.pc = s2.pc + (simp(z3.Not(c)),)
                        if self.feasible(s2):
                            work.append((s2, e2, blk, prev, idx, cnt))
                        st = st.copy()
                        st.pc = st.pc + (c,)
                        if not self.feasible(st):
                            return
                        r = a
                    elif I.ty == ir.I1:
                        r = Or(And(c, a), And(Not(c), b))
                    else:
                        r = ite(c, a, b, self.width(I.ty))
                    env = dict(env)
                    env[I.name] = r
                    continue
                self.exec_simple(f, mod, st, env, I)
            if not jumped:
                raise Unsupported('fell off block %s' % blk)

    def mark(self, f, blk, cnt, conc):
        """count undecided loop-exit decisions on this path"""
        if conc:
            return cnt
        succs = f.succs(blk)
        for h, body in f.loops().items():
            if blk in body and any(x not in body for x in succs):
                cnt = dict(cnt)
                cnt['$'] = cnt.get('$', 0) + 1
                return cnt
        return cnt

    def do_call(self, f, mod, st, env, I):
        callee = I.extra['callee']
        args = []
        for ty, v, at in I.a:
            if v is None:
                args.append(None)
                continue
            x = self.operand(mod, f, env, ty, v)
            if 'byval' in at:
                n = sizeof(at['byval'])
                self.fresh_n += 1
                q = self.new_obj(st, 'byval!%d' % self.fresh_n, n)
                from . import builtins
                builtins.copy_bytes(self, st, q, x, n, I)
                x = q
            args.append(x)
        if callee[0] == 'g':
            return self.call(st, callee[1], args, I, mod)
        t = self.pp(self.operand(mod, f, env, ir.PTR, callee))
        if t.base and t.base.startswith('fn:'):
            return self.call(st, t.base[3:], args, I, mod)
        h = self.stubs.get('<indirect>')
        if h is not None:
            r = h(self, st, t, args, I)
            return r if isinstance(r, list) else [(st, r)]
        if t.base is None and isc(t.off):
            self.require(st, False, 'call through null function pointer', I.line, f.name, 'memory')
        raise Unsupported('indirect call %r line %s' % (t, I.line))

    def exec_simple(self, f, mod, st, env, I):
        op = I.op
        if op == 'gep':
            vals = [self.operand(mod, f, env, t, v) for t, v in I.a]
            env[I.name] = self.gep(I.extra, I.a, vals)
        elif op == 'load':
            env[I.name] = self.load(st, self.operand(mod, f, env, ir.PTR, I.a[0]), I.ty, I.line, f.name)
        elif op == 'store':
            v = self.operand(mod, f, env, I.ty, I.a[0])
            self.store(st, self.operand(mod, f, env, ir.PTR, I.a[1]), I.ty, v, I.line, f.name)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.operand(mod, f, env, I.ty, I.a[0])
            b = self.operand(mod, f, env, I.ty, I.a[1])
            env[I.name] = self.binop(op, a, b, I.ty)
        elif op in ('sdiv', 'udiv', 'srem', 'urem'):
            a = self.operand(mod, f, env, I.ty, I.a[0])
            b = self.operand(mod, f, env, I.ty, I.a[1])
            w = I.ty[1]
            self.require(st, ne(b, 0, w), 'no division by zero', I.line, f.name, 'trap')
            if op[0] == 's':
                self.require(st, Not(And(eq(b, M(w), w), eq(a, 1 << (w - 1), w))), 'no division overflow trap', I.line, f.name, 'trap')
            if self.div_facts is not None and op[0] == 's' and isc(b) and not isc(a) and 0 < sg(b, w):
                a = simp(a)
                if not isc(a):
                    env[I.name] = self.divrem(st, a, b, w)[op == 'srem']
                    return
            env[I.name] = self.binop(op, a, b, I.ty)
        elif op == 'icmp':
            a = self.operand(mod, f, env, I.ty, I.a[0])
            b = self.operand(mod, f, env, I.ty, I.a[1])
            env[I.name] = self.icmp(I.extra, a, b, I.ty)
        elif op == 'fcmp':
            a = self.operand(mod, f, env, I.ty, I.a[0])
            b = self.operand(mod, f, env, I.ty, I.a[1])
            env[I.name] = fcmp(I.extra, a, b, self.width(I.ty))
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fpext', 'fptrunc', 'addrspacecast'):
            env[I.name] = self.cast(op, self.operand(mod, f, env, I.extra, I.a[0]), I.extra, I.ty)
        elif op == 'fneg':
            env[I.name] = fneg(self.operand(mod, f, env, I.ty, I.a[0]), self.width(I.ty))
        elif op == 'alloca':
            c = self.operand(mod, f, env, ir.I32, I.a[0])
            self.fresh_n += 1
            nm = 'stk!%d:%s' % (self.fresh_n, I.name)
            env[I.name] = self.new_obj(st, nm, simp(mul(c, sizeof(I.extra), 64)) if not isc(c) else c * sizeof(I.extra))
        elif op == 'extractvalue':
            v = self.operand(mod, f, env, I.ty, I.a[0])
            for i in I.extra:
                v = v[i]
            env[I.name] = v
        elif op == 'insertvalue':
            v = self.operand(mod, f, env, I.ty, I.a[0])
            t = I.ty
            # type of the element
            x = None
            et = t
            for i in I.extra:
                et = et[1][i] if et[0] == 'st' else et[2]
            x = self.operand(mod, f, env, et, I.a[1])

            def upd(v, idx):
                if not idx:
                    return x
                l = list(v)
                l[idx[0]] = upd(l[idx[0]], idx[1:])
                return tuple(l)
            env[I.name] = upd(v, I.extra)
        elif op == 'freeze':
            env[I.name] = self.operand(mod, f, env, I.ty, I.a[0])
        elif op == 'nop':
            pass
        else:
            raise Unsupported('instruction ' + op)

    def icmp(self, pred, a, b, ty):
        if ty[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            a = self.pp(a)
            b = self.pp(b)
            if a.base == b.base:
                x, y = a.off, b.off
            else:
                if a.base is None:
                    a = self.i2p(a.off)
                if b.base is None:
                    b = self.i2p(b.off)
                if a.base == b.base:
                    x, y = a.off, b.off
                elif pred in ('eq', 'ne') and (a.base is not None and b.base is not None):
                    return pred == 'ne'
                elif pred in ('eq', 'ne') and ((a.base is None and isc(a.off) and a.off < 65536) or (b.base is None and isc(b.off) and b.off < 65536)):
                    return pred == 'ne'
                else:
                    x, y = self.p2i(a), self.p2i(b)
            a, b, w = x, y, 64
        else:
            w = ty[1]
            if w == 1:
                if pred == 'eq':
                    return Iff(a, b)
                if pred == 'ne':
                    return Not(Iff(a, b))
                a, b = b2i(a, 1), b2i(b, 1)
        if pred == 'eq':
            return eq(a, b, w)
        if pred == 'ne':
            return ne(a, b, w)
        f = {'ult': ult, 'ule': ule, 'ugt': ugt, 'uge': uge, 'slt': slt, 'sle': sle, 'sgt': sgt, 'sge': sge}[pred]
        return f(a, b, w)

    # loops ---------------------------------------------------------------------
    def cut_loop(self, f, st0, env0, prev, header, cnt, work, outs, ctx):
        from .loops import cut_loop
        cut_loop(self, f, st0, env0, prev, header, cnt, work, outs, ctx)
