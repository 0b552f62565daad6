"""Contract driver: symbolic verification, discharge, counterexample replay."""
import os, time, random, subprocess, traceback
import z3
z3.z3.Z3_DEBUG = False
from . import ir, build, replay, loops
from .sym import *
from .mem import Obj, Unsupported
from .engine import Engine, State, NeedCut, Budget, Obligation, check, STATS, Univ, instantiate


class Contract:
    """Base class.  Attributes:
       name   label
       tus    list of translation units (relative to /repo/NULLC)
       fn     demangled function name/signature
    """
    name = None
    tus = []
    fn = None
    unroll = 6
    bounded_unroll = 4
    timeout = 20000
    budget = 200          # seconds
    use_init = ()
    max_steps = 400000
    replayable = True
    check_overlap = True
    feas_timeout = 4000
    deadline = None
    cut_all = False

    def setup(self, X):
        raise NotImplementedError

    def post(self, X, E, F, ret):
        return []

    def stubs(self, X):
        return {}

    def templates(self, eng, f, header, view):
        return []

    def find(self, mods):
        return build.find(mods, self.fn)


SPECIAL = {
    8: [0, 1, 0x7f, 0x80, 0xff, 0x41, 0x30],
    16: [0, 1, 0x7fff, 0x8000, 0xffff],
    32: [0, 1, 2, 3, 7, 8, 31, 32, 33, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 100],
    64: [0, 1, 2, 63, 64, 0x7fffffffffffffff, 1 << 63, M(64), M(64) - 1, 0xffffffff, 1 << 32, 0x80000000, 0x3ff0000000000000],
}
FSPECIAL = {32: [0, 0x80000000, 0x3f800000, 0xbf800000, 0x40400000, 0x7f800000, 0x7fc00000, 0x40a00000, 0x41200000, 0x3f000000, 0xc0e00000],
            64: [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x4008000000000000, 0x7ff0000000000000,
                 0x7ff8000000000000, 0x4014000000000000, 0x4024000000000000, 0x3fe0000000000000, 0xc01c000000000000,
                 0x41dfffffffc00000, 0x41e0000000000000, 0xc1e0000000000000, 0xc1e0000000200000, 0x43e0000000000000, 0x400c000000000000]}


class X:
    """entry-state builder, symbolic or concrete"""

    def __init__(self, eng, contract, choices=None, values=None, mode='sym'):
        self.E = eng
        self.contract = contract
        self.st = State()
        self.choices = choices if choices is not None else []
        self.taken = []
        self.values = values or {}
        self.mode = mode
        self.syms = {}       # name -> (term, width, isfloat)
        self.objs = {}       # name -> Obj id for model extraction
        self.sizes = []      # symbolic sizes
        self.fixed = {}
        self.align = {}
        self.stubs = {}
        self.native = False
        self.notes = {}
        self.preload = []
        self.softs = []

    @property
    def concrete(self):
        return self.mode == 'conc'

    def choice(self, name, options):
        i = len(self.taken)
        if i < len(self.choices):
            c = self.choices[i]
        else:
            c = 0
        self.taken.append((name, c, len(options)))
        return options[c]

    def int(self, name, w, flt=False):
        if self.concrete:
            v = self.values.get(name, 0)
            return v & M(w)
        t = z3.BitVec('in:' + name, w)
        self.syms[name] = (t, w, flt)
        return t

    def bool(self, name):
        if self.concrete:
            return bool(self.values.get(name, 0))
        t = z3.Bool('in:' + name)
        self.syms[name] = (t, 1, False)
        return t

    def assume(self, c):
        c = simp(c)
        if c is True:
            return
        self.st.pc = self.st.pc + (c if not isinstance(c, bool) else z3.BoolVal(False),)

    def obj(self, name, size, base=None, flags=(), track=True):
        """object with arbitrary contents; size int or term"""
        if base is not None:
            self.E.new_obj(self.st, name, size, base, flags)
            return Ptr(name, 0)
        if self.concrete:
            raw = self.values.get('M:' + name, b'')
            if not isc(size):
                raise Unsupported('symbolic size in concrete mode')
            raw = raw[:size]
            if size <= (1 << 24):
                raw = raw.ljust(size, b'\0')
            if size > (1 << 35):
                raise Unsupported('object too large to replay')
            self.E.new_obj(self.st, name, size, ('raw', raw), flags)
        else:
            if not isc(size):
                self.sizes.append(size)
                self.st.pc = self.st.pc + (z3.ULT(size, bv(1 << 46, 64)),)
            self.E.new_obj(self.st, name, size, None, flags)
            self.objs[name] = size
        return Ptr(name, 0)

    def put(self, p, n, v):
        self.E.wr(self.st, p, n, v)

    def flatheap(self, name='flat'):
        self.E.flat = name
        self.E.new_obj(self.st, name, None)


# --------------------------------------------------------------- post helpers
class G:
    """goal with quantifiers: forall over bounded ranges in goal position, and
    universally quantified hypotheses"""
    pass


def forall(Xc, name, n, body, lo=0):
    """for all i in [lo,n): body(i), in goal position"""
    if Xc.concrete:
        n_ = n if isc(n) else None
        for i in range(lo, min(n, lo + 200000)):
            b = body(i)
            if not isinstance(b, bool):
                b = simp(b)
            if b is not True:
                return False
        return True
    i = Xc.E.fresh('sk_' + name, 64)
    if isc(lo) and lo == 0:
        return Implies(ult(i, n, 64), body(i))
    return Implies(And(ule(lo, i, 64), ult(i, n, 64)), body(i))


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.oblig = 0
        self.discharged = 0
        self.backends = {}
        self.solver_time = 0.0
        self.failures = []       # dicts
        self.unknown = []
        self.paths = 0
        self.functions = set()
        self.loops = {}
        self.status = 'proved'
        self.vacuous = False
        self.note = ''
        self.wall = 0
        self.live = 0
        self.dead = []
        self.sampled = 0
        self.depth = None
        self.kinds = {}


def explore(contract, mods, target, choices, cut, bounded, deadline):
    """one symbolic exploration; returns (engine, X, outs)"""
    E = Engine(mods)
    E.cut = cut
    E.bounded = bounded
    E.cut_all = contract.cut_all
    E.unroll = contract.bounded_unroll if bounded else contract.unroll
    E.max_steps = contract.max_steps
    E.deadline = deadline
    E.feas_timeout = contract.feas_timeout
    E.use_init = contract.use_init if contract.use_init == 'all' else set(contract.use_init)
    E.check_overlap = contract.check_overlap
    x = X(E, contract, choices)
    E.templates = contract.templates if type(contract).templates is not Contract.templates else None
    x.stubs = {}
    x.stubs = stub_names(contract, mods, x)
    E.stubs = x.stubs
    if getattr(contract, 'default_ext', None):
        E.default_ext = contract.default_ext
    args = contract.setup(x)
    entry = x.st.copy()
    x.entry = entry
    f = E.find(target)
    st = x.st.copy()
    outs = E.run_function(f, args, st)
    return E, x, entry, outs + E.stopped


def enum_choices(contract, mods, target):
    """all choice vectors of setup"""
    todo = [[]]
    out = []
    while todo:
        c = todo.pop()
        E = Engine(mods)
        x = X(E, contract, c)
        x.stubs = {}
        contract.setup(x)
        taken = x.taken
        out.append([t[1] for t in taken])
        for i in range(len(c), len(taken)):
            for v in range(1, taken[i][2]):
                todo.append([t[1] for t in taken[:i]] + [v])
    return out


def run_cvc5(forms, timeout=20):
    s = z3.Solver()
    s.add(*forms)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % (timeout * 1000)], input=txt, capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'


def discharge(E, ob, res, timeout):
    """sets ob.status"""
    res.oblig += 1
    res.kinds[ob.kind] = res.kinds.get(ob.kind, 0) + 1
    g = ob.goal
    if not isinstance(g, (bool, int)):
        g = simp(g)
    if isinstance(g, (bool, int)) and g:
        ob.status = 'proved'
        ob.backend = 'simplifier'
    else:
        t0 = time.time()
        forms = list(E.axioms) + list(ob.pc) + [Not(g)]
        r = None
        if E.div_facts is not None and not isinstance(g, bool):
            # the hypotheses about the goal's own symbols are often enough
            own = loops.syms(g)
            few = [f for f in ob.pc if not isinstance(f, bool) and loops.syms(f) <= own]
            r, _ = check(few + [Not(g)], (), 1500)
            r = r if r == 'unsat' else None
        if r is None:
            r, _ = check(forms, ob.univ, timeout)
        ob.backend = 'z3'
        if r == 'unknown':
            fs = [f for f in forms if not isinstance(f, bool)]
            if any(isinstance(f, bool) and not f for f in forms):
                r = 'unsat'
            else:
                fs = fs + instantiate(fs, ob.univ)
                r = run_cvc5(fs, max(10, timeout // 1000))
                ob.backend = 'cvc5'
        ob.time = time.time() - t0
        res.solver_time += ob.time
        if os.environ.get('VC_SLOW') and ob.time > float(os.environ['VC_SLOW']):
            print('SLOW %.1f %s %s line %s: %s || %s' % (ob.time, ob.backend, ob.name, ob.line, str(ob.goal)[:600], [str(c)[:200] for c in ob.pc]))
        ob.status = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[r]
    if ob.status == 'proved':
        res.discharged += 1
        res.backends[ob.backend] = res.backends.get(ob.backend, 0) + 1
    return ob.status


def obligations(contract, E, x, entry, outs):
    obs = list(E.oblig)
    x.E = E
    for i, (st, ret) in enumerate(outs):
        E.record = False
        for nm, c in contract.post(x, entry, st, ret):
            univ = st.univ
            hyp = ()
            if isinstance(c, tuple):      # (goal, [Univ...], [hyps])
                c, us, hyp = c
                univ = univ + tuple(us)
            o = Obligation(nm, st.pc + tuple(hyp), univ, c, None, contract.fn, st, 'post')
            o.ret = ret
            obs.append(o)
    return obs


def model_values(x, m):
    vals = {}
    for n, (t, w, fl) in x.syms.items():
        v = m.eval(t, model_completion=True)
        if w == 1 and z3.is_bool(t):
            vals[n] = z3.is_true(v)
        else:
            vals[n] = v.as_long()
    # nondeterministic results of callee contracts (allocation failure etc.)
    for d in m.decls():
        if d.arity() == 0 and d.name().startswith('nd:'):
            v = m[d]
            vals[d.name()] = z3.is_true(v) if z3.is_bool(v) else v.as_long()
    decls = {d.name(): d for d in m.decls()}
    if x.E.flat is not None:
        fd = decls.get('M:' + x.E.flat)
        d = {}
        if fd is not None and isinstance(m[fd], z3.FuncInterp):
            fi = m[fd]
            try:
                ev = fi.else_value()
            except z3.Z3Exception:
                ev = None
            d['else'] = ev.as_long() if ev is not None and z3.is_bv_value(ev) else 0
            for i in range(fi.num_entries()):
                en = fi.entry(i)
                d[en.arg_value(0).as_long()] = en.value().as_long()
        vals['flat'] = d
    for n, size in x.objs.items():
        if not isc(size):
            if size is None:
                continue
            size = m.eval(size, model_completion=True).as_long()
        if size > (1 << 20):
            size = 1 << 20
        fd = decls.get('M:' + n)
        if fd is None:
            vals['M:' + n] = b'\0' * size
            continue
        fi = m[fd]
        if not isinstance(fi, z3.FuncInterp):
            vals['M:' + n] = b'\0' * size
            continue
        try:
            ev = fi.else_value()
        except z3.Z3Exception:
            ev = None
        e = ev.as_long() if ev is not None and z3.is_bv_value(ev) else 0
        buf = bytearray([e]) * size
        for i in range(fi.num_entries()):
            en = fi.entry(i)
            a = en.arg_value(0).as_long()
            if a < size:
                buf[a] = en.value().as_long()
        vals['M:' + n] = bytes(buf)
    return vals


def find_models(E, x, ob, rng, tries):
    """diverse models of pc and not goal"""
    forms = [f for f in list(E.axioms) + list(ob.pc) + [Not(ob.goal)] if not isinstance(f, bool)]
    forms += instantiate(forms, ob.univ)
    names = list(x.syms)
    for t in range(tries):
        s = z3.Solver()
        s.set('timeout', 6000)
        s.set('random_seed', rng.randrange(1 << 30))
        s.add(*forms)
        cons = []
        lim = [256, 4096, 65536, None][min(t // 3, 3)] if t else 64
        if lim:
            for z in x.sizes:
                cons.append(z3.ULE(z, lim))
        nsz = len(cons)
        for c in x.softs:
            cons.append(c)
        if t:
            for n in names:
                tm, w, fl = x.syms[n]
                if w == 1:
                    continue
                if rng.random() < (0.9 if fl else 0.35):
                    pool = FSPECIAL[w] if fl else SPECIAL.get(w, [0])
                    cons.append(tm == rng.choice(pool))
        head = cons[:nsz]
        tail = cons[nsz:]
        rng.shuffle(tail)
        cons = head + tail
        # greedily keep satisfiable soft constraints
        if s.check() != z3.sat:
            if t == 0:
                continue
            return
        m = s.model()
        batch = [c for c in cons if not isinstance(c, bool)]
        s.push()
        s.add(*batch)
        r = s.check()
        if r == z3.sat:
            m = s.model()
        else:
            s.pop()
            for c in batch:
                s.push()
                s.add(c)
                if s.check() == z3.sat:
                    m = s.model()
                else:
                    s.pop()
        yield model_values(x, m)


def stub_names(contract, mods, x):
    out = {}
    for k, v in contract.stubs(x).items():
        if k != '<indirect>':
            try:
                k = build.find(mods, k)
            except build.ExtractError:
                # a callee the code no longer mentions needs no contract
                continue
        out[k] = v
    return out


def replay_values(contract, mods, target, choices, vals, at_end=True):
    """run the real code natively on one concrete entry state"""
    E0 = Engine(mods)
    E0.concrete_map = []
    names = [n for n in stub_names(contract, mods, X(E0, contract, choices, vals, 'conc')) if n != '<indirect>']
    replay.build_so(mods, target, names)          # cached in the parent

    def mk(E):
        x = X(E, contract, choices, vals, 'conc')
        E.check_overlap = contract.check_overlap
        E.use_init = contract.use_init if contract.use_init == 'all' else set(contract.use_init)
        E.ndvals = vals
        E.default_ext_c = getattr(contract, 'default_ext', None)
        x.stubs = stub_names(contract, mods, x)
        args = contract.setup(x)
        for c in x.st.pc:
            if z3.is_false(c):
                raise Unsupported('precondition false in replay')
        return x.st, args, x
    return replay.run_native(contract, mods, target, mk, at_end)


def bad(r):
    return r['status'] in ('crash', 'timeout') or (r['status'] == 'ok' and r['failed'])


def confirm(contract, mods, target, choices, E, x, ob, rng, tries=12, limit=40):
    """try to reproduce a failed obligation natively"""
    last = None
    if not contract.replayable:
        return None, None, 'not replayable'
    t0 = time.time()
    for vals in find_models(E, x, ob, rng, tries):
        for at_end in (True, False):
            r = replay_values(contract, mods, target, choices, vals, at_end)
            last = r
            if bad(r):
                return vals, r, None
        if time.time() - t0 > limit:
            break
    return None, last, 'not reproduced: %s' % (str(last)[:600],)


def sampled(contract, mods, target, ch, rng, n, limit=40):
    """run the real code on entry states drawn from the precondition"""
    t0 = time.time()
    runs = 0
    if not contract.replayable:
        return 0, None
    E = Engine(mods)
    x = X(E, contract, ch)
    x.stubs = stub_names(contract, mods, x)
    contract.setup(x)
    ob = Obligation('precondition', x.st.pc, x.st.univ, False)
    for vals in find_models(E, x, ob, rng, n):
        for nd in range(2):
            if nd:
                vals = dict(vals)
                for i in range(6):
                    for t in ('allocfail',):
                        vals['nd:%s#%d' % (t, i)] = rng.random() < 0.3
            r = replay_values(contract, mods, target, ch, vals, bool(rng.random() < 0.5))
            if r['status'] != 'error':
                runs += 1
            if bad(r):
                return runs, dict(obligation=(r.get('failed') or ['no crash'])[0], line=None, function=target, confirmed=True, inputs=vals, choices=ch,
                                  result=r, kind='sampled', found_by='native run on a sampled entry state')
        if time.time() - t0 > limit:
            break
    return runs, None


def verify(contract, rng=None, tier='quick', budget=None, fail_deadline=None):
    """returns Result"""
    rng = rng or random.Random(1)
    res = Result(contract)
    t0 = time.time()
    budget = budget or contract.budget
    mods = [build.module(t) for t in contract.tus]
    target = contract.find(mods)
    if not any(target in m.functions for m in mods):
        raise build.ExtractError('no body for ' + contract.fn)
    deadline = t0 + budget
    STATS.time = 0
    failed = []
    cut = {}
    allch = enum_choices(contract, mods, target)
    for ch in allch:
        try:
            for attempt in range(12):
                try:
                    E, x, entry, outs = explore(contract, mods, target, ch, cut, False, deadline)
                    break
                except NeedCut as e:
                    cut[e.key] = True
            else:
                raise Unsupported('loop cutting did not converge')
            obs = obligations(contract, E, x, entry, outs)
        except (Unsupported, Budget, RecursionError) as e:
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
            failed.append((ch, None, None, None, '%s: %s' % (type(e).__name__, e)))
            continue
        res.paths += len(outs)
        res.functions |= E.inlined | {target}
        for (fn, h), info in E.loops_cut.items():
            res.loops['%s:%s' % (fn, h)] = info
        # vacuity: at least one returning path must be satisfiable
        live = False
        for st, _ in outs:
            if check(list(E.axioms) + list(st.pc), st.univ, 10000)[0] != 'unsat':
                live = True
                break
        if live:
            res.live += 1
        elif not any(o.goal is False for o in obs):
            res.dead.append(ch)
        fl = []
        for ob in obs:
            s = discharge(E, ob, res, contract.timeout)
            if s != 'proved':
                fl.append(ob)
                if len(fl) >= 8:
                    break
        if fl:
            failed.append((ch, E, x, fl, None))
    if not res.live:
        res.vacuous = True
    # counterexamples
    fail_deadline = fail_deadline or (time.time() + 200)
    for ch, E, x, fl, why in failed:
        done = False
        note = ''
        if res.failures and res.failures[-1]['confirmed']:
            break
        if fl:
            for ob in sorted(fl, key=lambda o: o.kind != 'memory')[:4]:
                if ob.status == 'unknown' or time.time() > fail_deadline:
                    continue
                try:
                    vals, r, note = confirm(contract, mods, target, ch, E, x, ob, rng)
                except Exception as e:
                    vals, r, note = None, None, 'replay error %r' % (e,)
                    if os.environ.get('VC_DEBUG'):
                        traceback.print_exc()
                if vals is not None:
                    res.failures.append(dict(obligation=ob.name, line=ob.line, function=ob.fn, confirmed=True, inputs=vals, choices=ch, result=r,
                                             kind=ob.kind))
                    done = True
                    break
        runs = 0
        if not done and time.time() < fail_deadline and (cut or why or any(o.status == 'unknown' for o in fl)):
            # bounded search for a real counterexample from the entry state
            bres = bounded(contract, mods, target, ch, rng, res)
            if isinstance(bres, dict):
                res.failures.append(bres)
                done = True
        if not done and time.time() < fail_deadline:
            try:
                runs, bres = sampled(contract, mods, target, ch, rng, 40)
                res.sampled += runs
            except Exception as e:
                bres = None
                if os.environ.get('VC_DEBUG'):
                    traceback.print_exc()
            if bres is not None:
                res.failures.append(bres)
                done = True
        if not done:
            if fl and any(o.status == 'failed' for o in fl):
                ob = [o for o in fl if o.status == 'failed'][0]
                res.failures.append(dict(obligation=ob.name, line=ob.line, function=ob.fn, confirmed=False, choices=ch, kind=ob.kind,
                                         goal=str(ob.goal)[:2000], pc=[str(c)[:400] for c in ob.pc][:40], note=note or ''))
            else:
                res.unknown.append(why or 'solver gave no answer for: ' + ', '.join(o.name for o in fl))
    if res.failures:
        res.status = 'failed'
    elif res.unknown:
        res.status = 'bounded'
    elif res.vacuous:
        res.status = 'vacuous'
    res.wall = time.time() - t0
    if tier == 'thorough' and res.status == 'proved':
        for ch in allch:
            try:
                runs, bres = sampled(contract, mods, target, ch, rng, 12, 20)
            except Exception:
                continue
            res.sampled += runs
            if bres is not None:
                res.failures.append(bres)
                res.status = 'failed'
                break
    return res


def bounded(contract, mods, target, ch, rng, res):
    """bounded symbolic search for a counterexample (labelled bounded)"""
    try:
        E, x, entry, outs = explore(contract, mods, target, ch, {}, True, time.time() + 60)
    except (Unsupported, Budget, NeedCut, RecursionError) as e:
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
        return None
    t0 = time.time()
    n = 0
    for ob in obligations(contract, E, x, entry, outs):
        g = simp(ob.goal)
        if g is True:
            continue
        if time.time() - t0 > 60:
            break
        r, _ = check(list(E.axioms) + list(ob.pc) + [Not(g)], ob.univ, 8000)
        if r != 'sat':
            continue
        n += 1
        if n > 4:
            break
        try:
            vals, rr, note = confirm(contract, mods, target, ch, E, x, ob, rng, 8)
        except Exception:
            if os.environ.get('VC_DEBUG'):
                traceback.print_exc()
            continue
        if vals is not None:
            return dict(obligation=ob.name, line=ob.line, function=ob.fn, confirmed=True, inputs=vals, choices=ch, result=rr, kind=ob.kind, found_by='bounded search')
    return None
