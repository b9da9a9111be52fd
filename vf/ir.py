"""Lazy parser for textual LLVM IR (LLVM 18, opaque pointers)."""
import re
import struct
import subprocess


class Unsupported(Exception):
    """The verifier cannot translate this construct."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_size', '_align')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = None

    def __repr__(self):
        return 'Ty(%s,%r)' % (self.k, self.a)


PTR = Ty('ptr')
VOID = Ty('void')
DOUBLE = Ty('double')
FLOAT = Ty('float')
_INT = {}


def INT(n):
    if n not in _INT:
        _INT[n] = Ty('int', n)
    return _INT[n]


TOK = re.compile(r'''\s*(?:
   (?P<str>c"[^"]*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<q>"[^"]*")
 | (?P<p>[(){}\[\]<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise Unsupported('cannot tokenize IR: ' + s[pos:pos + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out


class P:
    """Token stream."""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('end', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('expected %r at %r' % (v, self.t[self.i:self.i + 6]))


INTRE = re.compile(r'i\d+$')


def p_type(p):
    k, v = p.next()
    if k == 'word':
        if INTRE.match(v):
            t = INT(int(v[1:]))
        elif v == 'ptr':
            t = PTR
            if p.peek()[1] == 'addrspace':
                raise Unsupported('addrspace')
        elif v == 'void':
            t = VOID
        elif v == 'double':
            t = DOUBLE
        elif v == 'float':
            t = FLOAT
        elif v in ('x86_fp80', 'half', 'fp128', 'label', 'metadata', 'token', 'opaque'):
            t = Ty(v)
        else:
            raise Unsupported('type word ' + v)
    elif v == '{':
        fs = []
        if not p.accept('}'):
            while True:
                fs.append(p_type(p))
                if p.accept('}'):
                    break
                p.expect(',')
        t = Ty('struct', fs, False)
    elif v == '<':
        if p.peek()[1] == '{':
            p.next()
            fs = []
            if not p.accept('}'):
                while True:
                    fs.append(p_type(p))
                    if p.accept('}'):
                        break
                    p.expect(',')
            p.expect('>')
            t = Ty('struct', fs, True)
        else:
            n = int(p.next()[1])
            p.expect('x')
            e = p_type(p)
            p.expect('>')
            t = Ty('vec', n, e)
    elif v == '[':
        n = int(p.next()[1])
        p.expect('x')
        e = p_type(p)
        p.expect(']')
        t = Ty('arr', n, e)
    elif k == 'loc':
        t = Ty('named', unq(v))
    else:
        raise Unsupported('type token %r' % (v,))
    # function type suffix
    while p.peek()[1] == '(' and t.k != 'label':
        # only in function-type position: T (args)
        save = p.i
        p.next()
        depth = 1
        while depth:
            x = p.next()[1]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
            elif x == '':
                raise Unsupported('functype')
        t = Ty('func', t, None)
        del save
    return t


def unq(v):
    if len(v) > 1 and v[1] == '"':
        return v[0] + v[2:-1]
    return v


# ---------------------------------------------------------------- constants / operands
# operands: ('loc', name) ('glob', name) ('int', n) ('fp', float) ('null',) ('undef',) ('zero',)
#           ('agg', [(ty, op)]) ('bytes', b) ('expr', op, ...)
WORDCONST = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none'}


def parse_fp(v):
    if v.startswith('0x'):
        if v[2] in 'KLMHR':
            return ('fpx', v)
        return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0])
    return ('fp', float(v))


def unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('utf-8', 'surrogateescape')
    while i < len(b):
        if b[i:i + 2] == b'\\\\':
            out.append(0x5c)
            i += 2
        elif b[i] == 0x5c:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def p_operand(p, ty):
    k, v = p.next()
    if k == 'loc':
        return ('loc', unq(v))
    if k == 'glob':
        return ('glob', unq(v))
    if k == 'num':
        if ty.k in ('double', 'float', 'x86_fp80'):
            return parse_fp(v)
        if v.startswith('0x'):
            return ('int', int(v[2:], 16))
        return ('int', int(v))
    if k == 'str':
        return ('bytes', unesc(v[2:-1]))
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v in ('null', 'none'):
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            while p.peek()[0] == 'word' and p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            p.expect('(')
            bty = p_type(p)
            args = []
            while p.accept(','):
                p.accept('inrange')
                if p.peek()[1] == 'inrange':
                    p.next()
                t = p_type(p)
                args.append((t, p_operand(p, t)))
            p.expect(')')
            return ('expr', 'gep', bty, args)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            p.expect('(')
            t = p_type(p)
            o = p_operand(p, t)
            p.expect('to')
            t2 = p_type(p)
            p.expect(')')
            return ('expr', v, t, o, t2)
        if v in ('sub', 'add'):
            while p.peek()[0] == 'word':
                p.next()
            p.expect('(')
            t = p_type(p)
            o = p_operand(p, t)
            p.expect(',')
            t2 = p_type(p)
            o2 = p_operand(p, t2)
            p.expect(')')
            return ('expr', v, t, o, o2)
        raise Unsupported('constant ' + v)
    if v in ('{', '['):
        close = {'{': '}', '[': ']'}[v]
        items = []
        if not p.accept(close):
            while True:
                t = p_type(p)
                items.append((t, p_operand(p, t)))
                if p.accept(close):
                    break
                p.expect(',')
        return ('agg', items)
    if v == '<':
        if p.accept('{'):
            items = []
            while not p.accept('}'):
                t = p_type(p)
                items.append((t, p_operand(p, t)))
                p.accept(',')
            p.expect('>')
            return ('agg', items)
        items = []
        while not p.accept('>'):
            t = p_type(p)
            items.append((t, p_operand(p, t)))
            p.accept(',')
        return ('agg', items)
    raise Unsupported('operand %r' % (v,))


def skip_attrs(p):
    """Skip parameter/return attributes; returns set of attribute words (with sret type)."""
    attrs = {}
    while True:
        k, v = p.peek()
        if k == 'word' and v not in WORDCONST and v not in ('getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'trunc', 'zext') \
                and not INTRE.match(v) and v not in ('ptr', 'void', 'double', 'float', 'x86_fp80', 'half', 'label', 'metadata', 'token'):
            p.next()
            if p.peek()[1] == '(':
                p.next()
                if v in ('sret', 'byval'):
                    attrs[v] = p_type(p)
                    p.expect(')')
                else:
                    depth = 1
                    while depth:
                        x = p.next()[1]
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
                    attrs[v] = True
            else:
                attrs[v] = True
                if v == 'align':
                    p.next()
        elif k == 'attr' or (k == 'q'):
            p.next()
            if p.accept('='):
                p.next()
        else:
            return attrs


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'b', 'c', 'x', 'line')

    def __init__(self, op, dst=None, ty=None, a=None, b=None, c=None, x=None):
        self.op, self.dst, self.ty, self.a, self.b, self.c, self.x = op, dst, ty, a, b, c, x

    def __repr__(self):
        return 'Ins(%s %s)' % (self.dst, self.op)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg', 'inbounds', 'nusw', 'volatile'}


def p_flags(p):
    fl = set()
    while p.peek()[1] in FLAGS:
        fl.add(p.next()[1])
    return fl


def p_label(p):
    p.expect('label')
    return unq(p.next()[1])[1:]


def p_call(p, dst, op):
    while p.peek()[1] in ('fastcc', 'ccc', 'coldcc') or p.peek()[1] in FLAGS:
        p.next()
    rattrs = skip_attrs(p)
    rty = p_type(p)
    if rty.k == 'func':
        rty = rty.a
    k, v = p.next()
    if k == 'glob':
        callee = ('glob', unq(v))
    elif k == 'loc':
        callee = ('loc', unq(v))
    elif v == 'asm':
        raise Unsupported('inline asm')
    else:
        raise Unsupported('callee %r' % v)
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            t = p_type(p)
            at = skip_attrs(p)
            if t.k == 'metadata':
                depth = 0
                while not (depth == 0 and p.peek()[1] in (',', ')')):
                    x = p.next()[1]
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                args.append((t, ('undef',), at))
            else:
                args.append((t, p_operand(p, t), at))
            if p.accept(')'):
                break
            p.expect(',')
    ins = Ins(op, dst, rty, callee, args)
    ins.c = rattrs
    if op == 'invoke':
        while p.peek()[1] != 'to':
            p.next()
        p.expect('to')
        normal = p_label(p)
        p.expect('unwind')
        unwind = p_label(p)
        ins.x = (normal, unwind)
    return ins


def parse_ins(line):
    p = P(tokenize(line))
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1])
        p.next()
    k, op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in ('call', 'invoke'):
        return p_call(p, dst, op)
    if op == 'load':
        if p.accept('atomic'):
            pass
        p.accept('volatile')
        t = p_type(p)
        p.expect(',')
        pt = p_type(p)
        return Ins('load', dst, t, p_operand(p, pt))
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t = p_type(p)
        v = p_operand(p, t)
        p.expect(',')
        pt = p_type(p)
        return Ins('store', None, t, v, p_operand(p, pt))
    if op == 'alloca':
        t = p_type(p)
        n = ('int', 1)
        if p.peek()[1] == ',' and p.peek(1)[1] != 'align':
            p.next()
            t2 = p_type(p)
            n = p_operand(p, t2)
        return Ins('alloca', dst, t, n)
    if op == 'getelementptr':
        p_flags(p)
        bty = p_type(p)
        args = []
        while p.accept(','):
            t = p_type(p)
            args.append((t, p_operand(p, t)))
        return Ins('gep', dst, bty, args)
    if op == 'br':
        if p.peek()[1] == 'label':
            return Ins('jmp', a=p_label(p))
        t = p_type(p)
        c = p_operand(p, t)
        p.expect(',')
        l1 = p_label(p)
        p.expect(',')
        l2 = p_label(p)
        return Ins('br', a=c, b=l1, c=l2)
    if op == 'switch':
        t = p_type(p)
        c = p_operand(p, t)
        p.expect(',')
        d = p_label(p)
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t2 = p_type(p)
            v = p_operand(p, t2)
            p.expect(',')
            cases.append((v[1], p_label(p)))
        return Ins('switch', ty=t, a=c, b=d, c=cases)
    if op == 'ret':
        t = p_type(p)
        if t.k == 'void':
            return Ins('ret')
        return Ins('ret', ty=t, a=p_operand(p, t))
    if op == 'unreachable':
        return Ins('unreachable')
    if op == 'resume':
        t = p_type(p)
        return Ins('resume', a=p_operand(p, t))
    if op == 'phi':
        p_flags(p)
        t = p_type(p)
        inc = []
        while True:
            p.expect('[')
            v = p_operand(p, t)
            p.expect(',')
            lab = unq(p.next()[1])[1:]
            p.expect(']')
            inc.append((v, lab))
            if not p.accept(','):
                break
        return Ins('phi', dst, t, inc)
    if op == 'select':
        p_flags(p)
        t = p_type(p)
        c = p_operand(p, t)
        p.expect(',')
        t1 = p_type(p)
        a = p_operand(p, t1)
        p.expect(',')
        t2 = p_type(p)
        b = p_operand(p, t2)
        return Ins('select', dst, t1, c, a, b, x=t)
    if op in ('icmp', 'fcmp'):
        p_flags(p)
        pred = p.next()[1]
        t = p_type(p)
        a = p_operand(p, t)
        p.expect(',')
        b = p_operand(p, t)
        return Ins(op, dst, t, a, b, pred)
    if op in BINOPS:
        fl = p_flags(p)
        t = p_type(p)
        a = p_operand(p, t)
        p.expect(',')
        b = p_operand(p, t)
        return Ins(op, dst, t, a, b, x=fl)
    if op == 'fneg':
        p_flags(p)
        t = p_type(p)
        return Ins('fneg', dst, t, p_operand(p, t))
    if op in CASTS:
        fl = p_flags(p)
        t = p_type(p)
        a = p_operand(p, t)
        p.expect('to')
        t2 = p_type(p)
        return Ins(op, dst, t2, a, t, x=fl)
    if op == 'extractvalue':
        t = p_type(p)
        a = p_operand(p, t)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Ins(op, dst, t, a, idx)
    if op == 'insertvalue':
        t = p_type(p)
        a = p_operand(p, t)
        p.expect(',')
        t2 = p_type(p)
        b = p_operand(p, t2)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Ins(op, dst, t, a, b, idx)
    if op == 'landingpad':
        t = p_type(p)
        clauses = []
        cleanup = False
        while p.peek()[0] != 'end':
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                t2 = p_type(p)
                clauses.append(('catch', p_operand(p, t2)))
            elif w == 'filter':
                t2 = p_type(p)
                clauses.append(('filter', p_operand(p, t2)))
            else:
                break
        return Ins('landingpad', dst, t, clauses, cleanup)
    if op == 'freeze':
        t = p_type(p)
        return Ins('freeze', dst, t, p_operand(p, t))
    if op == 'fence':
        return Ins('nop')
    return Ins('unsupported', dst, x=op)


class Fn:
    __slots__ = ('name', 'dem', 'params', 'rty', 'blocks', 'order', 'entry', '_loops', '_joins', 'mod', 'line')


class Module:
    def __init__(self, path):
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            self.lines = f.read().split('\n')
        self.fnidx = {}
        self.decl = {}
        self.types = {}
        self.globals = {}
        self.aliases = {}
        self._fn = {}
        self._glob = {}
        i = 0
        L = self.lines
        n = len(L)
        names = set()
        while i < n:
            s = L[i]
            if s.startswith('define '):
                name = self._name(s)
                j = i + 1
                while L[j] != '}':
                    j += 1
                self.fnidx[name] = (i, j)
                names.add(name)
                i = j + 1
                continue
            if s.startswith('declare '):
                name = self._name(s)
                self.decl[name] = i
                names.add(name)
            elif s.startswith('%') and ' = type ' in s:
                nm, rest = s.split(' = type ', 1)
                self.types[unq(nm)] = rest
            elif s.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', s)
                nm = unq(m.group(1))
                if ' alias ' in s:
                    t = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', s)
                    self.aliases[nm[1:]] = unq(t[-1])[1:]
                    names.add(nm[1:])
                else:
                    self.globals[nm] = i
                    names.add(nm[1:])
            i += 1
        names = sorted(names)
        out = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True, check=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        self.by_dem = {}
        for k in self.fnidx:
            self.by_dem.setdefault(self.dem[k], k)

    @staticmethod
    def _name(s):
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
        v = m.group(1)
        return v[1:-1] if v[0] == '"' else v

    def find(self, pattern):
        """mangled names of defined functions whose demangled name matches fully."""
        r = re.compile(pattern)
        return [k for k in self.fnidx if r.fullmatch(self.dem[k])]

    # ---------------- types
    def res(self, t):
        while t.k == 'named':
            d = self.types.get(t.a)
            if d is None:
                raise Unsupported('unknown type ' + t.a)
            if isinstance(d, str):
                if d == 'opaque':
                    raise Unsupported('opaque type ' + t.a)
                d = p_type(P(tokenize(d)))
                self.types[t.a] = d
            t = d
        return t

    def size(self, t):
        if t._size is not None:
            return t._size[0]
        return self._sa(t)[0]

    def align(self, t):
        if t._size is not None:
            return t._size[1]
        return self._sa(t)[1]

    def _sa(self, t):
        if t._size is not None:
            return t._size
        r = self.res(t)
        if r.k == 'int':
            b = (r.a + 7) // 8
            s = 1
            while s < b:
                s *= 2
            sa = (s if r.a <= 64 else b, min(s, 16))
        elif r.k in ('ptr', 'double'):
            sa = (8, 8)
        elif r.k == 'float':
            sa = (4, 4)
        elif r.k == 'x86_fp80':
            sa = (16, 16)
        elif r.k in ('arr', 'vec'):
            es, ea = self._sa(r.b)
            sa = (es * r.a, ea)
        elif r.k == 'struct':
            off = 0
            al = 1
            for f in r.a:
                fs, fa = self._sa(f)
                if r.b:
                    fa = 1
                off = (off + fa - 1) // fa * fa + fs
                al = max(al, fa)
            sa = ((off + al - 1) // al * al, al)
        elif r.k == 'void':
            sa = (0, 1)
        else:
            raise Unsupported('sizeof ' + r.k)
        t._size = sa
        return sa

    def field_off(self, t, i):
        r = self.res(t)
        off = 0
        for j, f in enumerate(r.a):
            fa = 1 if r.b else self.align(f)
            off = (off + fa - 1) // fa * fa
            if j == i:
                return off, f
            off += self.size(f)
        raise Unsupported('field')

    # ---------------- functions
    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self._fn.get(name)
        if f is not None:
            return f
        if name not in self.fnidx:
            return None
        a, b = self.fnidx[name]
        f = Fn()
        f.mod = self
        f.name = name
        f.dem = self.dem[name]
        f._loops = None
        hdr = self.lines[a]
        p = P(tokenize(hdr[:hdr.rindex('{')]))
        p.next()
        while True:
            k, v = p.peek()
            if k == 'glob':
                break
            p.next()
        # return type is directly before the name; reparse
        p.next()
        p.expect('(')
        f.params = []
        idx = 0
        if not p.accept(')'):
            while True:
                if p.peek()[0] == 'dots':
                    p.next()
                    p.expect(')')
                    break
                t = p_type(p)
                at = skip_attrs(p)
                nm = unq(p.next()[1])
                f.params.append((t, nm, at))
                idx += 1
                if p.accept(')'):
                    break
                p.expect(',')
        f.blocks = {}
        f.order = []
        cur = None
        i = a + 1
        L = self.lines
        # entry label: explicit or implicit number
        while i < b:
            s = L[i]
            i += 1
            if not s or s[0] == ';':
                continue
            if s[0] != ' ':
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                nm = m.group(1)
                cur = nm[1:-1] if nm[0] == '"' else nm
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                # the implicit number of the entry block
                cnt = sum(1 for (_, nm2, _) in f.params if re.fullmatch(r'%\d+', nm2))
                cur = str(cnt)
                f.blocks[cur] = []
                f.order.append(cur)
            # join continuation lines
            t = s.strip()
            if t.startswith('switch ') or ' switch ' in t[:20]:
                while not L[i - 1].strip().endswith(']') and not re.search(r'\]\s*(, !.*)?$', L[i - 1].strip()):
                    t += ' ' + L[i].strip()
                    i += 1
            else:
                while i < b and L[i].startswith('          '):
                    t += ' ' + L[i].strip()
                    i += 1
            f.blocks[cur].append(t)
        f.entry = f.order[0]
        self._fn[name] = f
        return f

    @staticmethod
    def ins(f, bb):
        blk = f.blocks[bb]
        for i, t in enumerate(blk):
            if isinstance(t, str):
                # drop metadata attachments
                t2 = re.sub(r',? ![a-zA-Z_.]+ !\d+', '', t)
                blk[i] = parse_ins(t2)
        return blk

    def succs(self, f, bb):
        last = self.ins(f, bb)[-1]
        if last.op == 'jmp':
            return [last.a]
        if last.op == 'br':
            return [last.b, last.c]
        if last.op == 'switch':
            return [last.b] + [l for _, l in last.c]
        if last.op == 'invoke':
            return list(last.x)
        return []

    def loops(self, f):
        """header -> set of blocks (natural loops)."""
        if f._loops is not None:
            return f._loops
        succ = {b: self.succs(f, b) for b in f.order}
        # reachable, rpo
        seen = set()
        post = []
        st = [(f.entry, iter(succ[f.entry]))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for q in pred[b]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            x, y = q, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == f.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
                elif num[s] <= num[b]:
                    raise Unsupported('irreducible loop in ' + f.dem)
        f._loops = loops
        return loops

    def joins(self, f):
        """block -> the block where all ways from it to the end of the function meet first (exceptions apart)"""
        if getattr(f, '_joins', None) is not None:
            return f._joins
        succ = {}
        for b in f.order:
            last = self.ins(f, b)[-1]
            succ[b] = [last.x[0]] if last.op == 'invoke' else self.succs(f, b)
        ends = {b for b in f.order if self.ins(f, b)[-1].op == 'ret'}
        live = set(ends)
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b not in live and any(s in live for s in succ[b]):
                    live.add(b)
                    ch = True
        pd = {b: ({b} if b in ends else set(live)) for b in live}
        ch = True
        while ch:
            ch = False
            for b in live:
                if b in ends:
                    continue
                n = set.intersection(*[pd[s] for s in succ[b] if s in live]) | {b}
                if n != pd[b]:
                    pd[b] = n
                    ch = True
        out = {}
        for b in live:
            c = pd[b] - {b}
            for x in c:
                if len(pd[x]) == len(c):
                    out[b] = x
                    break
        f._joins = out
        return out

    def used_from(self, f, bb):
        """names of the values used in blocks that can be reached from bb"""
        c = self.__dict__.setdefault('_used', {}).setdefault(id(f), {})
        if bb in c:
            return c[bb]
        seen, work, out = {bb}, [bb], set()

        def walk(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'loc':
                out.add(x[1])
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        while work:
            b = work.pop()
            for i in self.ins(f, b):
                for x in (i.a, i.b, i.c, i.x):
                    walk(x)
            last = self.ins(f, b)[-1]
            for t in (list(last.x[:2]) if last.op == 'invoke' else self.succs(f, b)):
                if t in f.order and t not in seen:
                    seen.add(t)
                    work.append(t)
        c[bb] = out
        return out

    # ---------------- globals
    def glob(self, name):
        """(is_constant, type, init operand or None)"""
        if name in self._glob:
            return self._glob[name]
        i = self.globals.get(name)
        if i is None:
            return None
        s = self.lines[i]
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', s)
        rest = re.sub(r', (comdat|align|section|!dbg).*$', '', m.group(2))
        p = P(tokenize(rest))
        const = False
        ext = False
        while True:
            k, v = p.peek()
            if v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if v == 'external':
                ext = True
            if k == 'end':
                raise Unsupported('global ' + name)
            p.next()
        t = p_type(p)
        init = None
        if not ext and p.peek()[0] != 'end' and p.peek()[1] != ',':
            init = p_operand(p, t)
        self._glob[name] = (const, t, init)
        return self._glob[name]
