"""Shared contract vocabulary: script arrays, error reporting and allocation
contracts of the runtime functions the library code calls."""
import z3
from vc.sym import *
from vc.mem import Obj, Unsupported
from vc.verify import Contract, forall, X
from vc.engine import Univ, check
from vc import ir, build

# fundamental type ids and sizes (nullcdef.h / typeinfo order), re-read from the headers on each run
_T = None


def typeids():
    global _T
    if _T is None:
        names = ['VOID', 'BOOL', 'CHAR', 'SHORT', 'INT', 'LONG', 'FLOAT', 'DOUBLE']
        p = build.probe(['nullc.h'], ['NULLC_TYPE_' + n for n in names])
        _T = {n.lower(): p['NULLC_TYPE_' + n] for n in names}
    return _T


SIZES = {'bool': 1, 'char': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8}


def throw_error(E, st, a, I):
    """nullcThrowError: records that the program was stopped with an error"""
    st.events = st.events + (('error',),)
    return None


def errors(F):
    return sum(1 for e in F.events if e[0] == 'error')


def ndbool(E, st, tag):
    """nondeterministic outcome of an environment contract, consistent per path"""
    n = st.ghost.get('nd', 0)
    st.ghost['nd'] = n + 1
    name = 'nd:%s#%d' % (tag, n)
    if E.concrete_map is not None:
        return bool(E.ndvals.get(name, False))
    return z3.Bool(name)


def alloc_typed(E, st, a, I):
    """nullcAllocateArrayTyped / AllocArray(typed): zeroed block or (error, null)"""
    tid, cnt = a
    if not isc(tid):
        raise Unsupported('symbolic type id')
    name = {v: k for k, v in typeids().items()}[tid]
    return alloc_common(E, st, SIZES[name], cnt, tid)


def alloc_common(E, st, size, cnt, tid):
    bytes_ = simp(mul(zext(cnt, 32, 64), size, 64))
    c = ndbool(E, st, 'allocfail')
    out = []
    n = st.ghost.get('allocs', 0)
    st.ghost['allocs'] = n + 1
    limit = 1 << 33
    if E.concrete_map is not None:
        if c or bytes_ > (1 << 26):
            st.events = st.events + (('error',),)
            return [(st, (NULL, 0))]
        p = E.new_obj(st, 'alloc%d' % n, bytes_, ('zero',))
        st.events = st.events + (('alloc', 'alloc%d' % n, cnt, tid),)
        return [(st, (p, cnt))]
    s2 = st.copy()
    s2.pc = s2.pc + (c,)
    s2.events = s2.events + (('error',),)
    out.append((s2, (NULL, 0)))
    st.pc = st.pc + (z3.Not(c),)
    p = E.new_obj(st, 'alloc%d' % n, bytes_, ('zero',))
    st.events = st.events + (('alloc', 'alloc%d' % n, cnt, tid),)
    out.append((st, (p, cnt)))
    return out


RUNTIME = {
    'nullcThrowError': throw_error,
    'nullcAllocateArrayTyped': alloc_typed,
}


def script_array(Xc, name, elem=1, null=True, extra=0):
    """a script array value {ptr,len}: null with any... len, or len elements of storage"""
    ln = Xc.int(name + '.len', 32)
    opts = ['obj', 'null'] if null else ['obj']
    if Xc.choice(name, opts) == 'null':
        # a null script array has no elements
        Xc.assume(eq(ln, 0, 32))
        return NULL, ln
    size = simp(mul(zext(ln, 32, 64), elem, 64))
    p = Xc.obj(name, size)
    return p, ln


def bytes_equal(Xc, name, S1, p1, S2, p2, n):
    E = Xc.E
    o1, o2 = E.obj(S1, p1.base), E.obj(S2, p2.base)
    return forall(Xc, name, n, lambda i: eq(simp(o1.byte(simp(add(p1.off, i, 64)))), simp(o2.byte(simp(add(p2.off, i, 64)))), 8))


def unchanged(Xc, S0, S1, base, name=None, except_=None):
    """object contents are the same, except for the byte range (off,n)"""
    E = Xc.E
    o1 = S0.mem.get(base)
    o2 = S1.mem.get(base)
    if o1 is o2:
        return True
    size = o1.size

    def body(i):
        c = eq(simp(o1.byte(i)), simp(o2.byte(i)), 8)
        if except_ is not None:
            off, n = except_
            inr = ult(simp(sub(i, off, 64)), n, 64)
            c = Or(inr, c)
        return c
    return forall(Xc, 'frame_' + (name or base), size, body)


# profiling scopes have no effect on the results
TRACE = {n: (lambda E, st, a, I: None) for n in ('_ZN5NULLC10TraceScopeC1Ej', '_ZN5NULLC10TraceScopeC2Ej', '_ZN5NULLC10TraceScopeD1Ev', '_ZN5NULLC10TraceScopeD2Ev')}
TRACE['_ZN5NULLC13TraceGetTokenEPKcS1_'] = lambda E, st, a, I: 0
TRACE['__cxa_guard_acquire'] = lambda E, st, a, I: 0
TRACE['__cxa_guard_release'] = lambda E, st, a, I: None
