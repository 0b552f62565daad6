"""Parser for textual LLVM 18 IR (the subset clang -O0 + sroa emits).

The IR is produced mechanically from /repo's sources on every run; nothing is
dropped except debug metadata (line numbers are kept for reports).
Types are resolved structurally:
  ('i',n) ('ptr',) ('float',) ('double',) ('fp80',) ('void',) ('arr',n,t)
  ('st',(t,...),packed) ('vec',n,t) ('label',) ('fn',)
"""
import re

TOK = re.compile(r'''
  (?P<ws>[ \t\n]+|;[^\n]*)
 |(?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<loc>%"[^"]*"|%[-\w$.]+)
 |(?P<glb>@"[^"]*"|@[-\w$.]+)
 |(?P<meta>![\w.$]*)
 |(?P<attr>\#\d+)
 |(?P<comdat>\$"[^"]*"|\$[-\w$.]+)
 |(?P<hex>-?0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<flt>-?\d+\.\d*(?:[eE][-+]?\d+)?)
 |(?P<num>-?\d+)
 |(?P<dots>\.\.\.)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<p>[-()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        t = m(s, pos)
        if not t:
            raise SyntaxError('IR token: ' + s[pos:pos + 60])
        k = t.lastgroup
        if k != 'ws':
            out.append((k, t.group()))
        pos = t.end()
    return out


class IRError(Exception):
    pass


I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
VOID = ('void',)

PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'nofree', 'swiftself', 'allocptr', 'writable', 'dead_on_unwind', 'nest'}
FNFLAGS = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'x86_intrcc', 'tail', 'musttail', 'notail'}


def unq(s):
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


def decode_cstr(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'name', 'ty', 'a', 'line', 'extra', 'fn')

    def __init__(self, op, name, ty, a, extra=None, line=None):
        self.op = op
        self.name = name
        self.ty = ty
        self.a = a
        self.extra = extra
        self.line = line

    def __repr__(self):
        return '<%s = %s %s %s %s>' % (self.name, self.op, self.ty, self.a, self.extra)


class Function:
    def __init__(self, mod, name, header, body, internal):
        self.mod = mod
        self.name = name
        self.header = header
        self.body_text = body
        self.internal = internal
        self.blocks = None
        self.params = None
        self.rettype = None
        self.vararg = False
        self._loops = None
        mod.parse_header(self)

    def parse(self):
        if self.blocks is None:
            self.mod.parse_body(self)
        return self

    # ---- CFG helpers
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.extra)
        if t.op == 'switch':
            return [t.extra[0]] + [l for _, l in t.extra[1]]
        if t.op == 'indirectbr':
            return list(t.extra)
        if t.op == 'invoke':
            return [t.extra['normal']]
        return []

    def loops(self):
        """natural loops: header -> set of blocks; only headers dominated properly"""
        if self._loops is not None:
            return self._loops
        self.parse()
        entry = next(iter(self.blocks))
        # RPO
        seen = set()
        order = []
        stack = [(entry, iter(self.succs(entry)))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == entry:
                    continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            f1, f2 = p, new
                            while f1 != f2:
                                while idx[f1] > idx[f2]:
                                    f1 = idom[f1]
                                while idx[f2] > idx[f1]:
                                    f2 = idom[f2]
                            new = f1
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        self._loops = loops
        self._order = order
        return loops


class Module:
    def __init__(self, text, src):
        self.src = src
        self.text = text
        self.typedefs = {}
        self._types = {}
        self.globals = {}     # name -> (type, init tokens|None, const)
        self._ginit = {}
        self.functions = {}   # defined
        self.declares = {}
        self.dilines = {}
        self.aliases = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                hdr = l
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', hdr)
                name = m.group(1).strip('"')
                self.functions[name] = (hdr, lines[i + 1:j], ' internal ' in hdr[:m.start()])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.declares[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, rhs = l.split(' = type ', 1)
                self.typedefs[unq(nm)] = rhs
            elif l.startswith('@'):
                nm, rhs = l.split(' = ', 1)
                if re.match(r'.*\balias\b', rhs.split('@')[0]):
                    self.aliases[unq(nm)[1:]] = rhs
                else:
                    self.globals[unq(nm)[1:]] = rhs
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DI(?:Location|LexicalBlock\w*|Subprogram)\((.*)\)', l)
                if m:
                    lm = re.search(r'line: (\d+)', m.group(2))
                    if lm:
                        self.dilines[m.group(1)] = int(lm.group(1))
            i += 1

    def fn(self, name):
        f = self.functions.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = Function(self, name, f[0], f[1], f[2])
            self.functions[name] = f
        return f

    # ------------------------------------------------------------ types
    def type_of_name(self, n):
        t = self._types.get(n)
        if t is None:
            rhs = self.typedefs[n]
            if rhs.strip() == 'opaque':
                t = ('opaque',)
            else:
                t, p = self.ptype(tokenize(rhs), 0)
            self._types[n] = t
        return t

    def ptype(self, T, i):
        k, v = T[i]
        if k == 'word':
            if v == 'ptr':
                return PTR, i + 1
            if v == 'void':
                return VOID, i + 1
            if v[0] == 'i' and v[1:].isdigit():
                return ('i', int(v[1:])), i + 1
            if v == 'float' or v == 'double':
                return (v,), i + 1
            if v == 'x86_fp80':
                return ('fp80',), i + 1
            if v in ('label', 'metadata', 'opaque', 'half', 'token'):
                return (v,), i + 1
            raise IRError('type ' + v)
        if k == 'loc':
            return self.type_of_name(unq(v)), i + 1
        if v == '[':
            n = int(T[i + 1][1])
            t, j = self.ptype(T, i + 3)
            assert T[j][1] == ']', T[j]
            return ('arr', n, t), j + 1
        if v == '{':
            return self._struct(T, i + 1, False)
        if v == '<':
            if T[i + 1][1] == '{':
                t, j = self._struct(T, i + 2, True)
                assert T[j][1] == '>'
                return t, j + 1
            n = int(T[i + 1][1])
            t, j = self.ptype(T, i + 3)
            return ('vec', n, t), j + 1
        raise IRError('type tok %r' % (T[i],))

    def _struct(self, T, i, packed):
        fs = []
        while T[i][1] != '}':
            t, i = self.ptype(T, i)
            fs.append(t)
            if T[i][1] == ',':
                i += 1
        return ('st', tuple(fs), packed), i + 1

    # ------------------------------------------------------------ constants
    def pval(self, T, i, ty):
        """operand of given type. returns (operand, i)"""
        k, v = T[i]
        if k == 'loc':
            return ('l', unq(v)), i + 1
        if k == 'glb':
            return ('g', unq(v)[1:]), i + 1
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1)), i + 1
            if ty[0] in ('float', 'double'):
                return ('c', fbits(float(v), ty)), i + 1
            raise IRError('num for %r' % (ty,))
        if k == 'flt':
            return ('c', fbits(float(v), ty)), i + 1
        if k == 'hex':
            if ty[0] == 'double':
                return ('c', int(v, 16)), i + 1
            if ty[0] == 'float':
                import struct
                d = struct.unpack('<d', struct.pack('<Q', int(v, 16)))[0]
                return ('c', fbits(d, ty)), i + 1
            return ('undef', ty), i + 1
        if k == 'word':
            if v == 'true':
                return ('c', 1), i + 1
            if v == 'false':
                return ('c', 0), i + 1
            if v == 'null':
                return ('null',), i + 1
            if v in ('undef', 'poison'):
                return ('undef', ty), i + 1
            if v == 'zeroinitializer':
                return ('zero', ty), i + 1
            if v == 'none':
                return ('undef', ty), i + 1
            if v == 'blockaddress':
                f = unq(T[i + 2][1])[1:]
                b = unq(T[i + 4][1])
                return ('ba', f, b), i + 6
            if v == 'getelementptr':
                i += 1
                while T[i][1] in ('inbounds', 'nuw', 'nusw') or T[i][1] == 'inrange':
                    i += 1
                i += 1
                st, i = self.ptype(T, i)
                ops = []
                while T[i][1] != ')':
                    i += 1  # comma
                    if T[i][1] == 'inrange':
                        i += 1
                    o, i = self.ptval(T, i)
                    ops.append(o)
                return ('gep', st, ops), i + 1
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                o, i = self.ptval(T, i + 2)
                assert T[i][1] == 'to'
                t2, i = self.ptype(T, i + 1)
                return ('cast', v, o, t2), i + 1
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                i += 1
                while T[i][1] in ('nsw', 'nuw'):
                    i += 1
                a, i = self.ptval(T, i + 1)
                b, i = self.ptval(T, i + 1)
                return ('cbin', v, a, b), i + 1
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return ('g', unq(T[i + 1][1])[1:]), i + 2
            raise IRError('const ' + v)
        if k == 'cstr':
            return ('bytes', decode_cstr(v)), i + 1
        if v == '[' or (v == '{') or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            i += 1
            if v == '<' and T[i][1] == '{':
                o, i = self.pval(T, i, ty)
                return o, i + 1
            els = []
            while T[i][1] != close:
                o, i = self.ptval(T, i)
                els.append(o)
                if T[i][1] == ',':
                    i += 1
            return ('agg', els), i + 1
        raise IRError('operand %r' % (T[i:i + 5],))

    def ptval(self, T, i):
        """typed operand -> ((type, operand), i)"""
        ty, i = self.ptype(T, i)
        i = self._skip_attrs(T, i)
        o, i = self.pval(T, i, ty)
        return (ty, o), i

    def _skip_attrs(self, T, i, out=None):
        while True:
            k, v = T[i]
            if k == 'word' and v in PARAM_ATTRS:
                i += 1
            elif k == 'word' and v in ('align',):
                if T[i + 1][1] == '(':
                    i += 4
                else:
                    i += 2
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null'):
                i += 4
            elif k == 'word' and v in ('byval', 'sret', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                t, j = self.ptype(T, i + 2)
                if out is not None:
                    out[v] = t
                i = j + 1
            elif k == 'word' and v in ('captures', 'memory', 'range', 'nofpclass'):
                d = 0
                i += 1
                while True:
                    if T[i][1] == '(':
                        d += 1
                    if T[i][1] == ')':
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            else:
                return i

    # ------------------------------------------------------------ headers
    def parse_header(self, f):
        hdr = f.header
        k = hdr.index('@' + ('"' if '@"' in hdr and ('@"' + f.name) in hdr else '') + f.name)
        pre = hdr[:k]
        post = hdr[k:]
        T = tokenize(post.split(' #')[0] if ' #' in post else post.rstrip('{ '))
        # return type: last type in prefix
        P = tokenize(pre)
        i = 1
        while True:
            kk, v = P[i]
            if kk == 'word' and (v in PARAM_ATTRS or v in CCONV or v in (
                    'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'available_externally', 'hidden', 'linkonce',
                    'private', 'protected', 'dso_preemptable', 'unnamed_addr', 'local_unnamed_addr')):
                i += 1
                continue
            if kk == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                i = self._skip_attrs(P, i)
                continue
            break
        f.rettype, _ = self.ptype(P, i)
        params = []
        i = 2
        while T[i][1] != ')':
            if T[i][1] == '...':
                f.vararg = True
                i += 1
                break
            ty, i = self.ptype(T, i)
            at = {}
            i = self._skip_attrs(T, i, at)
            nm = None
            if T[i][0] == 'loc':
                nm = unq(T[i][1])
                i += 1
            params.append((ty, nm, at))
            if T[i][1] == ',':
                i += 1
        f.params = params

    # ------------------------------------------------------------ bodies
    def parse_body(self, f):
        blocks = {}
        cur = None
        lines = f.body_text
        i = 0
        n = len(lines)
        first = True
        while i < n:
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                if not m:
                    raise IRError('label: ' + l)
                nm = '%' + m.group(1).strip('"')
                cur = blocks[nm] = []
                first = False
                continue
            if first:
                # implicit entry label: number after params
                cnt = sum(1 for p in f.params if p[1] is None or p[1][1:].isdigit())
                cur = blocks['%%%d' % cnt] = []
                first = False
            s = l
            st = s.strip()
            if st.startswith('call void @llvm.dbg.') or st.startswith('#dbg_') or st.startswith(
                    'call void @llvm.lifetime') or st.startswith('tail call void @llvm.dbg'):
                continue
            if (' switch ' in s or s.startswith('  switch')) and s.rstrip().endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ' + lines[i].strip()
                i += 1
            elif st.endswith('landingpad { ptr, i32 }') or ' landingpad ' in s:
                while i < n and lines[i].startswith('          '):
                    i += 1
                cur.append(Inst('landingpad', None, VOID, ()))
                continue
            elif ' invoke ' in s or s.startswith('  invoke'):
                if ' to label ' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            line = None
            m = re.search(r'(?:, !\w+ !\d+)+\s*$', s)
            if m:
                dm = re.search(r'!dbg !(\d+)', m.group())
                if dm:
                    line = self.dilines.get(dm.group(1))
                s = s[:m.start()]
            ins = self.pinst(tokenize(s))
            ins.line = line
            ins.fn = f
            cur.append(ins)
        f.blocks = blocks

    def pinst(self, T):
        name = None
        i = 0
        if T[0][0] == 'loc' and T[1][1] == '=':
            name = unq(T[0][1])
            i = 2
        op = T[i][1]
        i += 1
        T = T + [('end', '')]
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while T[i][1] in ('nsw', 'nuw', 'exact', 'disjoint') or T[i][1] in FNFLAGS:
                i += 1
            ty, i = self.ptype(T, i)
            a, i = self.pval(T, i, ty)
            b, i = self.pval(T, i + 1, ty)
            return Inst(op, name, ty, (a, b))
        if op == 'fneg':
            while T[i][1] in FNFLAGS:
                i += 1
            (ty, a), i = self.ptval(T, i)
            return Inst(op, name, ty, (a,))
        if op == 'load':
            vol = False
            while T[i][1] in ('volatile', 'atomic'):
                vol = True
                i += 1
            ty, i = self.ptype(T, i)
            (_, p), i = self.ptval(T, i + 1)
            return Inst(op, name, ty, (p,))
        if op == 'store':
            while T[i][1] in ('volatile', 'atomic'):
                i += 1
            (ty, v), i = self.ptval(T, i)
            (_, p), i = self.ptval(T, i + 1)
            return Inst(op, name, ty, (v, p))
        if op == 'getelementptr':
            while T[i][1] in ('inbounds', 'nuw', 'nusw'):
                i += 1
            st, i = self.ptype(T, i)
            ops = []
            while T[i][1] == ',':
                o, i = self.ptval(T, i + 1)
                ops.append(o)
            return Inst('gep', name, PTR, tuple(ops), st)
        if op == 'icmp' or op == 'fcmp':
            while T[i][1] in FNFLAGS or T[i][1] == 'samesign':
                i += 1
            pred = T[i][1]
            ty, i = self.ptype(T, i + 1)
            a, i = self.pval(T, i, ty)
            b, i = self.pval(T, i + 1, ty)
            return Inst(op, name, ty, (a, b), pred)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while T[i][1] in ('nneg', 'nuw', 'nsw'):
                i += 1
            (ty, a), i = self.ptval(T, i)
            assert T[i][1] == 'to', T
            t2, i = self.ptype(T, i + 1)
            return Inst(op, name, t2, (a,), ty)
        if op == 'br':
            if T[i][1] == 'label':
                return Inst('br', None, VOID, (), (unq(T[i + 1][1]),))
            (ty, c), i = self.ptval(T, i)
            return Inst('br', None, VOID, (c,), (unq(T[i + 2][1]), unq(T[i + 5][1])))
        if op == 'switch':
            (ty, c), i = self.ptval(T, i)
            dflt = unq(T[i + 2][1])
            i += 4
            cases = []
            while T[i][1] != ']':
                (_, v), i = self.ptval(T, i)
                cases.append((v[1], unq(T[i + 2][1])))
                i += 3
            return Inst('switch', None, ty, (c,), (dflt, cases))
        if op == 'indirectbr':
            (ty, c), i = self.ptval(T, i)
            labs = []
            i += 2
            while T[i][1] != ']':
                if T[i][0] == 'loc':
                    labs.append(unq(T[i][1]))
                i += 1
            return Inst('indirectbr', None, ty, (c,), labs)
        if op == 'phi':
            while T[i][1] in FNFLAGS:
                i += 1
            ty, i = self.ptype(T, i)
            inc = []
            while True:
                v, i = self.pval(T, i + 1, ty)
                lab = unq(T[i + 1][1])
                inc.append((lab, v))
                i += 3
                if T[i][1] == ',':
                    i += 1
                else:
                    break
            return Inst('phi', name, ty, (), inc)
        if op == 'select':
            while T[i][1] in FNFLAGS:
                i += 1
            (_, c), i = self.ptval(T, i)
            (ty, a), i = self.ptval(T, i + 1)
            (_, b), i = self.ptval(T, i + 1)
            return Inst('select', name, ty, (c, a, b))
        if op == 'ret':
            if T[i][1] == 'void':
                return Inst('ret', None, VOID, ())
            (ty, a), i = self.ptval(T, i)
            return Inst('ret', None, ty, (a,))
        if op == 'unreachable':
            return Inst(op, None, VOID, ())
        if op == 'resume':
            return Inst('resume', None, VOID, ())
        if op == 'alloca':
            ty, i = self.ptype(T, i)
            cnt = ('c', 1)
            if T[i][1] == ',' and T[i + 1][1] != 'align':
                (_, cnt), i = self.ptval(T, i + 1)
            return Inst('alloca', name, PTR, (cnt,), ty)
        if op == 'extractvalue':
            (ty, a), i = self.ptval(T, i)
            idx = []
            while T[i][1] == ',':
                idx.append(int(T[i + 1][1]))
                i += 2
            return Inst(op, name, ty, (a,), idx)
        if op == 'insertvalue':
            (ty, a), i = self.ptval(T, i)
            (ty2, b), i = self.ptval(T, i + 1)
            idx = []
            while T[i][1] == ',':
                idx.append(int(T[i + 1][1]))
                i += 2
            return Inst(op, name, ty, (a, b), idx)
        if op == 'freeze':
            (ty, a), i = self.ptval(T, i)
            return Inst(op, name, ty, (a,))
        if op in ('call', 'invoke', 'tail', 'musttail', 'notail'):
            if op in ('tail', 'musttail', 'notail'):
                op = 'call'
                i += 1
            while T[i][1] in FNFLAGS or T[i][1] in CCONV:
                i += 1
            i = self._skip_attrs(T, i)
            ty, i = self.ptype(T, i)
            i = self._skip_attrs(T, i)
            if T[i][1] == '(':   # function type for varargs
                d = 0
                while True:
                    if T[i][1] == '(':
                        d += 1
                    if T[i][1] == ')':
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            if T[i][1] == 'asm':
                return Inst('asm', name, ty, (), None)
            callee, i = self.pval(T, i, PTR)
            i += 1
            args = []
            while T[i][1] != ')':
                aty, i = self.ptype(T, i)
                at = {}
                i = self._skip_attrs(T, i, at)
                if aty[0] == 'metadata':
                    while T[i][1] not in (',', ')'):
                        i += 1
                    args.append((aty, None, at))
                else:
                    v, i = self.pval(T, i, aty)
                    args.append((aty, v, at))
                if T[i][1] == ',':
                    i += 1
            i += 1
            extra = {'callee': callee}
            if op == 'invoke':
                while T[i][1] != 'to':
                    i += 1
                extra['normal'] = unq(T[i + 2][1])
            return Inst(op, name, ty, tuple(args), extra)
        if op == 'fence':
            return Inst('nop', None, VOID, ())
        if op in ('extractelement', 'insertelement', 'shufflevector', 'atomicrmw', 'cmpxchg', 'va_arg'):
            return Inst('unsupported', name, VOID, (), op)
        raise IRError('inst ' + op)

    def ginit(self, name):
        """(type, init operand or None, is_const)"""
        r = self._ginit.get(name)
        if r is None:
            rhs = self.globals[name]
            T = tokenize(re.sub(r', !dbg !\d+', '', rhs))
            i = 0
            const = False
            ext = False
            while True:
                k, v = T[i]
                if v in ('global', 'constant'):
                    const = v == 'constant'
                    i += 1
                    break
                if v in ('external', 'extern_weak'):
                    ext = True
                if v == 'thread_local' and T[i + 1][1] == '(':
                    i += 3
                i += 1
            ty, i = self.ptype(T, i)
            init = None
            if not ext and i < len(T) and T[i][1] != ',':
                init, i = self.pval(T, i, ty)
            r = (ty, init, const)
            self._ginit[name] = r
        return r


def fbits(x, ty):
    import struct
    if ty[0] == 'double':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]


# ---------------------------------------------------------------- layout
_lay = {}


def sizeof(t):
    return layout(t)[0]


def layout(t):
    r = _lay.get(t)
    if r is None:
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            r = (p if p <= 8 else n, min(p, 16), None)
        elif k == 'ptr' or k == 'double':
            r = (8, 8, None)
        elif k == 'float':
            r = (4, 4, None)
        elif k == 'fp80':
            r = (16, 16, None)
        elif k == 'arr' or k == 'vec':
            s, a, _ = layout(t[2])
            r = (s * t[1], a, None)
        elif k == 'st':
            off = 0
            al = 1
            offs = []
            for f in t[1]:
                s, a, _ = layout(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al, tuple(offs))
        else:
            raise IRError('sizeof %r' % (t,))
        _lay[t] = r
    return r
