"""Parser for the textual LLVM IR (opaque pointers) that clang and rustc emit.

Only what the symbolic executor needs is kept; attributes and metadata are
skipped.  Anything not understood raises ParseError: the executor never guesses.
"""
import re


class ParseError(Exception):
    pass


TOK = re.compile(
    r'''\s*(?:
    (?P<cstr>c"[^"]*")|
    (?P<str>"[^"]*")|
    (?P<glob>@(?:[\w.$-]+|"[^"]*"))|
    (?P<loc>%(?:[\w.$-]+|"[^"]*"))|
    (?P<meta>!(?:[\w.$-]+)?)|
    (?P<attr>\#\d+)|
    (?P<comdat>\$(?:[\w.$-]+|"[^"]*"))|
    (?P<fbits>f0x[0-9A-Fa-f]+\b|[+-]?(?:qnan\b|inf\b|s?nan\(0x[0-9A-Fa-f]+\)))|
    (?P<hexf>0x[KLMHR]?[0-9A-Fa-f]+)|
    (?P<float>-?\d+\.\d+(?:e[+-]?\d+)?)|
    (?P<int>-?\d+)|
    (?P<dots>\.\.\.)|
    (?P<id>[A-Za-z_][\w.$-]*)|
    (?P<p>[()\[\]{}<>,=*:|^])
    )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ParseError('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


def unquote(name):
    # name with its sigil removed
    if name.startswith('"'):
        body = name[1:-1]
        return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), body)
    return name


# ---- types -----------------------------------------------------------------
# ('i', w) ('ptr',) ('f', w) ('void',) ('arr', n, t) ('vec', n, t)
# ('st', (t...), packed) ('named', name) ('label',) ('metadata',) ('fn',) ('opaque',)
PTR = ('ptr',)
VOID = ('void',)
FLT = {'half': 16, 'float': 32, 'double': 64, 'x86_fp80': 80, 'fp128': 128, 'bfloat': 16}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def eof(self):
        return self.i >= len(self.t)

    def is_type_start(self):
        k, v = self.peek()
        if k == 'id':
            return bool(re.fullmatch(r'i\d+', v)) or v in FLT or v in (
                'void', 'ptr', 'label', 'metadata', 'token', 'opaque', 'target')
        if k == 'loc':
            return True
        return v in ('{', '[', '<')

    def type(self):
        k, v = self.next()
        t = None
        if k == 'id':
            m = re.fullmatch(r'i(\d+)', v)
            if m:
                t = ('i', int(m.group(1)))
            elif v == 'ptr':
                t = PTR
                if self.accept('addrspace'):
                    self.skip_parens()
            elif v == 'void':
                t = VOID
            elif v in FLT:
                t = ('f', FLT[v])
            elif v in ('label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise ParseError('type? %r' % v)
        elif k == 'loc':
            t = ('named', unquote(v[1:]))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = self._struct(False)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = self._struct(True)
                self.expect('>')
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise ParseError('type? %r' % (self.t[self.i - 1:self.i + 6],))
        # function type:  T (args...)
        if self.peek()[1] == '(' and self.fn_ok:
            self.skip_parens()
            t = ('fn', t)
        return t

    fn_ok = False

    def _struct(self, packed):
        el = []
        if self.accept('}'):
            return ('st', (), packed)
        while True:
            el.append(self.type())
            if self.accept('}'):
                break
            self.expect(',')
        return ('st', tuple(el), packed)

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    PATTR_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'captures',
                   'initializes', 'memory', 'align', 'elementtype', 'byref', 'inalloca', 'preallocated',
                   'nofpclass', 'allockind', 'vscale_range', 'dead_on_return', 'allocsize'}
    PATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'nofree', 'nest',
             'returned', 'readonly', 'readnone', 'writeonly', 'immarg', 'swiftself', 'swifterror', 'align',
             'writable', 'dead_on_unwind', 'allocptr', 'noext', 'allocalign', 'noreturn', 'nounwind', 'dead_on_return',
             'dereferenceable', 'dereferenceable_or_null'}

    def param_attrs(self):
        """Skips parameter attributes; returns those relevant to the ABI."""
        out = {}
        while True:
            k, v = self.peek()
            if k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
                continue
            if k == 'attr':
                self.next()
                continue
            if k == 'id' and (v in self.PATTR_PAREN or v in self.PATTR):
                self.next()
                if v == 'align':
                    if self.peek()[1] == '(':
                        self.skip_parens()
                    else:
                        self.next()
                    continue
                if self.peek()[1] == '(':
                    if v in ('byval', 'sret', 'byref'):
                        self.expect('(')
                        out[v] = self.type()
                        self.expect(')')
                    else:
                        self.skip_parens()
                else:
                    out[v] = True
                continue
            return out


def parse_const(p, ty):
    """A value of type ty -> operand.  Operands:
    ('r', name)  ('c', int)  ('undef',)  ('zero',)  ('agg', [operands], types)
    ('g', name)  ('gep', srcty, base, [(ty, op)...])  ('cast', kind, ty, op, toty)
    ('bin', kind, ty, a, b)  ('fl', bits)  ('bytes', b)"""
    k, v = p.next()
    if k == 'loc':
        return ('r', unquote(v[1:]))
    if k == 'glob':
        return ('g', unquote(v[1:]))
    if k == 'int':
        n = int(v)
        if ty[0] == 'i':
            return ('c', n & ((1 << ty[1]) - 1))
        if ty[0] == 'f':
            raise ParseError('int for float')
        return ('c', n)
    if k == 'float':
        import struct
        if ty[1] == 64:
            return ('c', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
        if ty[1] == 32:
            return ('c', struct.unpack('<I', struct.pack('<f', float(v)))[0])
        raise ParseError('float width')
    if k == 'fbits':
        if v[:3] == 'f0x':
            return ('c', int(v[3:], 16))
        w = ty[1]
        mant = {64: 52, 32: 23, 16: 10}[w]
        b = ((1 << (w - 1 - mant)) - 1) << mant
        body = v.lstrip('+-')
        if body == 'qnan':
            b |= 1 << (mant - 1)
        elif body != 'inf':
            b |= int(re.search(r'0x([0-9A-Fa-f]+)', body).group(1), 16)
            if body[0] == 'n':
                b |= 1 << (mant - 1)
        return ('c', b | ((1 << (w - 1)) if v[0] == '-' else 0))
    if k == 'hexf':
        if v[2] in 'KLMHR':
            return ('undef',)
        import struct
        b = int(v, 16)
        if ty[0] == 'f' and ty[1] == 32:
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            return ('c', struct.unpack('<I', struct.pack('<f', d))[0])
        return ('c', b)
    if k == 'cstr':
        s = v[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return ('bytes', bytes(out))
    if v == 'true':
        return ('c', 1)
    if v == 'false':
        return ('c', 0)
    if v == 'null' or v == 'none':
        return ('c', 0)
    if v in ('undef', 'poison'):
        return ('undef',)
    if v == 'zeroinitializer':
        return ('zero',)
    if v == 'splat':
        p.expect('(')
        et = p.type()
        e = parse_const(p, et)
        p.expect(')')
        return ('agg', [e] * ty[1], [et] * ty[1])
    if v in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[v]
        packed = False
        if v == '<' and p.peek()[1] == '{':
            p.next()
            packed = True
            close = '}'
        ops, tys = [], []
        if not p.accept(close):
            while True:
                et = p.type()
                tys.append(et)
                ops.append(parse_const(p, et))
                if p.accept(close):
                    break
                p.expect(',')
        if packed:
            p.expect('>')
        return ('agg', ops, tys)
    if v == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
            if p.next()[1] == 'inrange' and p.peek()[1] == '(':
                p.skip_parens()
        p.expect('(')
        sty = p.type()
        p.expect(',')
        bt = p.type()
        base = parse_const(p, bt)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, parse_const(p, it)))
        p.expect(')')
        return ('gep', sty, base, idx)
    if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast', 'ptrtoaddr'):
        p.expect('(')
        ft = p.type()
        o = parse_const(p, ft)
        p.expect('to')
        tt = p.type()
        p.expect(')')
        return ('cast', v, ft, o, tt)
    if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        p.expect('(')
        t1 = p.type()
        a = parse_const(p, t1)
        p.expect(',')
        t2 = p.type()
        b = parse_const(p, t2)
        p.expect(')')
        return ('bin', v, t1, a, b)
    if v == 'dso_local_equivalent' or v == 'no_cfi':
        return parse_const(p, ty)
    if k == 'id' and v == 'blockaddress':
        p.skip_parens()
        return ('undef',)
    raise ParseError('const? %r' % (p.t[p.i - 1:p.i + 6],))


class Func:
    def __init__(self, name, ret, retattrs, params, vararg):
        self.name, self.ret, self.retattrs, self.params, self.vararg = name, ret, retattrs, params, vararg
        self.blocks = {}
        self.order = []
        self.defined = False


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, init operand or None, const)
        self.funcs = {}
        self.aliases = {}
        self._lay = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._lay.get(t)
        if r is not None:
            return r
        r = self._size_align(t)
        self._lay[t] = r
        return r

    def _size_align(self, t):
        k = t[0]
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'i':
            w = t[1]
            b = (w + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return ((b + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'f':
            return {16: (2, 2), 32: (4, 4), 64: (8, 8), 80: (16, 16), 128: (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vec':
            s, a = self.size_align(t[2])
            if t[2] == ('i', 1):
                s = 1
                tot = (t[1] + 7) // 8
            else:
                tot = s * t[1]
            al = 1
            while al < tot:
                al *= 2
            return ((tot + al - 1) // al * al, al)
        if k == 'st':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'opaque':
            return (0, 1)
        raise ParseError('size of %r' % (t,))

    def offsets(self, t):
        key = ('off', t)
        r = self._lay.get(key)
        if r is None:
            off, r = 0, []
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                r.append(off)
                off += s
            self._lay[key] = r
        return r


LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending',
           'extern_weak', 'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default',
           'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized',
           'fastcc', 'coldcc', 'ccc', 'noundef', 'tailcc', 'dllimport', 'dllexport', 'cold', 'preserve_mostcc'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    n = len(lines)
    # named types first (they may be used before their definition)
    for ln in lines:
        m = re.match(r'^(%(?:[\w.$-]+|"[^"]*")) = type (.*)$', ln)
        if m:
            body = m.group(2)
            name = unquote(m.group(1)[1:])
            if body.strip() == 'opaque':
                mod.types[name] = ('opaque',)
            else:
                mod.types[name] = P(tokenize(body), mod).type()
    i = 0
    while i < n:
        ln = lines[i]
        if ln.startswith('define '):
            i = _parse_define(mod, lines, i)
            continue
        if ln.startswith('declare '):
            f = _parse_header(mod, ln[len('declare '):])
            if f.name not in mod.funcs:
                mod.funcs[f.name] = f
        elif ln.startswith('@'):
            _parse_global(mod, ln)
        i += 1
    return mod


def _parse_header(mod, s):
    p = P(tokenize(s.rstrip().rstrip('{')), mod)
    while p.peek()[1] in LINKAGE:
        v = p.next()[1]
        if v == 'thread_local' and p.peek()[1] == '(':
            p.skip_parens()
    if p.peek()[1] == 'cc':
        p.next()
        p.next()
    ra = p.param_attrs()
    ret = p.type()
    k, name = p.next()
    if k != 'glob':
        raise ParseError('function name: %r' % name)
    name = unquote(name[1:])
    p.expect('(')
    params, vararg = [], False
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                vararg = True
                p.expect(')')
                break
            t = p.type()
            at = p.param_attrs()
            pn = None
            if p.peek()[0] == 'loc':
                pn = unquote(p.next()[1][1:])
            params.append((t, pn, at))
            if p.accept(')'):
                break
            p.expect(',')
    # unnamed params are numbered
    cnt = 0
    np_ = []
    for t, pn, at in params:
        if pn is None:
            pn = str(cnt)
            cnt += 1
        elif pn.isdigit():
            cnt = int(pn) + 1
        np_.append((t, pn, at))
    f = Func(name, ret, ra, np_, vararg)
    f.nunnamed = cnt
    f.noreturn = False
    return f


def _parse_global(mod, ln):
    p = P(tokenize(ln), mod)
    name = unquote(p.next()[1][1:])
    p.expect('=')
    while p.peek()[1] in LINKAGE:
        v = p.next()[1]
        if v == 'thread_local' and p.peek()[1] == '(':
            p.skip_parens()
    if p.accept('addrspace'):
        p.skip_parens()
    while p.peek()[1] in LINKAGE:
        p.next()
    v = p.next()[1]
    if v == 'alias' or v == 'ifunc':
        t = p.type()
        if p.peek()[1] == '(':
            p.skip_parens()
        p.accept(',')
        t2 = p.type()
        mod.aliases[name] = parse_const(p, t2)
        return
    if v not in ('global', 'constant'):
        raise ParseError('global %r' % ln[:80])
    t = p.type()
    init = None
    if not p.eof() and p.peek()[1] != ',':
        init = parse_const(p, t)
    al = 1
    while not p.eof():
        if p.next()[1] == 'align':
            al = int(p.next()[1])
    mod.globals[name] = (t, init, v == 'constant', al)


def _join(lines, i):
    """Body lines of a define starting at i (after header) joined into logical lines."""
    out = []
    cur = None
    while True:
        ln = lines[i]
        i += 1
        if ln.startswith('}'):
            break
        s = ln.strip()
        if not s or s.startswith(';') or s.startswith('#dbg'):
            continue
        if cur is not None:
            cur += ' ' + s
            if s.startswith(']'):
                out.append(cur)
                cur = None
            continue
        if ln.startswith('  ') and re.match(r'switch ', s) and not _switch_closed(s):
            cur = s
            continue
        if ln.startswith(' ') and re.match(r'(to label |cleanup$|catch |filter )', s) and out:
            out[-1] += ' ' + s
            continue
        out.append(ln if not ln.startswith(' ') else '  ' + s)
    return out, i


def _switch_closed(s):
    return s.rstrip().endswith(']') or bool(re.search(r'\][^\[]*$', s))


def _parse_define(mod, lines, i):
    f = _parse_header(mod, lines[i][len('define '):])
    f.defined = True
    body, i = _join(lines, i + 1)
    cnt = f.nunnamed
    cur = None
    first = True
    for ln in body:
        m = re.match(r'^((?:[\w.$-]+|"[^"]*")):', ln)
        if m and not ln.startswith(' '):
            cur = unquote(m.group(1))
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            continue
        if first:
            cur = str(cnt)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        f.blocks[cur].append(ln.strip())
    mod.funcs[f.name] = f
    return i


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptrunc', 'fpext',
         'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
         'reassoc', 'afn'}


def parse_inst(mod, s):
    """One instruction line -> tuple (op, dest, ...)"""
    p = P(tokenize(s), mod)
    dest = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dest = unquote(p.next()[1][1:])
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN:
        fl = set()
        while p.peek()[1] in FLAGS:
            fl.add(p.next()[1])
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        b = parse_const(p, t)
        return ('bin', dest, op, t, a, b, frozenset(fl))
    if op == 'icmp' or op == 'fcmp':
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        b = parse_const(p, t)
        return (op, dest, pred, t, a, b)
    if op == 'load':
        atomic = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = parse_const(p, pt)
        return ('load', dest, t, a)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        v = parse_const(p, t)
        p.expect(',')
        pt = p.type()
        a = parse_const(p, pt)
        return ('store', None, t, v, a)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        sty = p.type()
        p.expect(',')
        bt = p.type()
        base = parse_const(p, bt)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            it = p.type()
            idx.append((it, parse_const(p, it)))
        return ('gep', dest, sty, base, idx, bt)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        num, nt, al = ('c', 1), ('i', 32), 1
        while p.accept(','):
            if p.accept('align'):
                al = int(p.next()[1])
            elif p.peek()[0] == 'meta':
                break
            else:
                nt = p.type()
                num = parse_const(p, nt)
        return ('alloca', dest, t, num, al)
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        ft = p.type()
        a = parse_const(p, ft)
        p.expect('to')
        tt = p.type()
        return ('cast', dest, op, ft, a, tt)
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct = p.type()
        c = parse_const(p, ct)
        p.expect(',')
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        t2 = p.type()
        b = parse_const(p, t2)
        return ('select', dest, ct, c, t, a, b)
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = parse_const(p, t)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc[unquote(b[1:])] = v
            if not p.accept(','):
                break
            if p.peek()[0] == 'meta':
                break
        return ('phi', dest, t, inc)
    if op == 'br':
        if p.accept('label'):
            return ('br', None, unquote(p.next()[1][1:]))
        t = p.type()
        c = parse_const(p, t)
        p.expect(',')
        p.expect('label')
        a = unquote(p.next()[1][1:])
        p.expect(',')
        p.expect('label')
        b = unquote(p.next()[1][1:])
        return ('cbr', None, c, a, b)
    if op == 'switch':
        t = p.type()
        c = parse_const(p, t)
        p.expect(',')
        p.expect('label')
        d = unquote(p.next()[1][1:])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = parse_const(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unquote(p.next()[1][1:])))
        return ('switch', None, t, c, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', None, VOID, None)
        return ('ret', None, t, parse_const(p, t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'extractvalue':
        t = p.type()
        a = parse_const(p, t)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return ('extractvalue', dest, t, a, idx)
    if op == 'insertvalue':
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        et = p.type()
        e = parse_const(p, et)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return ('insertvalue', dest, t, a, et, e, idx)
    if op == 'extractelement':
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        it = p.type()
        return ('extractelement', dest, t, a, parse_const(p, it))
    if op == 'insertelement':
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        et = p.type()
        e = parse_const(p, et)
        p.expect(',')
        it = p.type()
        return ('insertelement', dest, t, a, e, parse_const(p, it))
    if op == 'shufflevector':
        t = p.type()
        a = parse_const(p, t)
        p.expect(',')
        t2 = p.type()
        b = parse_const(p, t2)
        p.expect(',')
        mt = p.type()
        return ('shufflevector', dest, t, a, b, mt, parse_const(p, mt))
    if op == 'freeze':
        t = p.type()
        return ('freeze', dest, t, parse_const(p, t))
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        return ('fneg', dest, t, parse_const(p, t))
    if op in ('call', 'invoke'):
        while p.peek()[1] in FLAGS or p.peek()[1] in LINKAGE:
            p.next()
        if p.peek()[1] == 'cc':
            p.next()
            p.next()
        ra = p.param_attrs()
        while p.peek()[1] in LINKAGE:
            p.next()
        rt = p.type()
        if p.peek()[1] == '(':      # explicit function type (varargs)
            p.skip_parens()
        k, v = p.peek()
        if v == 'asm':
            return ('asm', dest, rt, s)
        callee = parse_const(p, PTR)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type()
                if t == ('metadata',):
                    # skip the operand
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        d += v == '('
                        d -= v == ')'
                    args.append((t, ('undef',), {}))
                else:
                    at = p.param_attrs()
                    args.append((t, parse_const(p, t), at))
                if p.accept(')'):
                    break
                p.expect(',')
        normal = None
        if op == 'invoke':
            while not p.accept('to'):
                p.next()
            p.expect('label')
            normal = unquote(p.next()[1][1:])
        return ('call', dest, rt, callee, args, normal, ra)
    if op == 'atomicrmw':
        p.accept('volatile')
        kind = p.next()[1]
        pt = p.type()
        a = parse_const(p, pt)
        p.expect(',')
        t = p.type()
        v = parse_const(p, t)
        return ('atomicrmw', dest, kind, t, a, v)
    if op == 'cmpxchg':
        while p.peek()[1] in ('weak', 'volatile'):
            p.next()
        pt = p.type()
        a = parse_const(p, pt)
        p.expect(',')
        t = p.type()
        c = parse_const(p, t)
        p.expect(',')
        t2 = p.type()
        nv = parse_const(p, t2)
        return ('cmpxchg', dest, t, a, c, nv)
    if op == 'fence':
        return ('nop', None)
    if op in ('landingpad', 'resume', 'cleanupret', 'catchswitch', 'catchpad', 'cleanuppad'):
        return ('eh', dest, s)
    raise ParseError('instruction? %r' % s[:120])
