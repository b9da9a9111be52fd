"""Contracts of the standard library functions that /repo's code calls (assumed, listed in the evidence)."""
import z3
from .engine import (Abs, Ptr, Opq, FnPtr, Agg, NULL, UNDEF, Str, BV64, F64, bv, fresh, is_lit, simp, Throw, Multi, ExcObj,
                     Undef, istrue, isfalse, VOff)
from .ir import Unsupported
from .names import canon, params, targs

H = {}


def contract(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


# ------------------------------------------------------------------ strings
slen = z3.Function('slen', Str, BV64)
sbyte = z3.Function('sbyte', Str, BV64, z3.BitVecSort(8))
cat = z3.Function('cat', Str, Str, Str)
ctrunc = z3.Function('ctrunc', Str, Str)            # prefix up to the first NUL byte
tostr = z3.Function('tostr', BV64, Str)
tostr_neg = z3.Function('tostr_negative', BV64, Str)
tostr_signed = lambda v: z3.If(v >= 0, tostr(v), tostr_neg(v))
tostrd = z3.Function('tostr_d', F64, Str)
pd_ok = z3.Function('parses_as_double', Str, z3.BoolSort())
pd_val = z3.Function('double_value_of', Str, F64)
ipref_ok = z3.Function('starts_with_integer', Str, z3.BoolSort())
ipref_val = z3.Function('leading_integer_of', Str, BV64)
irest = z3.Function('has_text_after_integer', Str, z3.BoolSort())
codepoints = z3.Function('codepoints', Str, BV64)     # what u8_strlen counts in a whole string
spush = z3.Function('spush', Str, z3.BitVecSort(8), Str)


class AStr(Abs):
    __slots__ = ('t', 'lit')

    def inv_leaves(self):
        return [('', 'val', lambda a: a.t)]

    def __init__(self, t, lit=None):
        self.t, self.lit = t, lit

    def same(self, o):
        return self.t.eq(o.t)

    def havoc(self, E, label):
        return AStr(fresh('s_' + label, Str))


def lit(E, b):
    if isinstance(b, str):
        b = b.encode()
    return AStr(E.str_lit(b), b)


def cbytes(E, st, p):
    """literal bytes of a C string in memory, or None"""
    if isinstance(p, Ptr) and isinstance(p.off, int):
        o = st.obj(p.obj)
        out = bytearray()
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or not is_lit(c[1]) or c[0] != 1:
                return None
            b = c[1].as_long()
            if b == 0:
                return bytes(out)
            out.append(b)
            i += 1
    return None


def cstr(E, st, p):
    """AStr for a 'const char *' argument"""
    if isinstance(p, Ptr):
        o = st.obj(p.obj)
        if o.kind == 'cstr':
            if p.off != 0:
                raise Unsupported('offset into c_str()')
            s = o.info
            if s.lit is not None:
                return lit(E, s.lit.split(b'\0')[0])
            return AStr(ctrunc(s.t))
    b = cbytes(E, st, p)
    if b is None:
        raise Unsupported('C string of unknown contents')
    return lit(E, b)


def bytes_n(E, st, p, n):
    """AStr for (const char *, length)"""
    if isinstance(p, Ptr):
        o = st.obj(p.obj)
        if o.kind == 'cstr' and p.off == 0:
            s = o.info
            if s.lit is not None and is_lit(n):
                return lit(E, s.lit[:n.as_long()])
            if E.valid(st, n == slen(s.t))[0] == 'unsat':
                return s
            return AStr(z3.Function('sprefix', Str, BV64, Str)(s.t, n))
        if is_lit(n) and isinstance(p.off, int):
            out = bytearray()
            for i in range(n.as_long()):
                c = o.cells.get(p.off + i)
                if c is None or not is_lit(c[1]):
                    raise Unsupported('bytes of unknown contents')
                out.append(c[1].as_long())
            return lit(E, bytes(out))
    raise Unsupported('byte range of unknown contents')


def mkstr_sym(E, st, p):
    if isinstance(p, Opq):
        return AStr(z3.Function('ostr_%s_%s' % (p.tag or 'o', p.off), BV64, Str)(p.t))
    if isinstance(p, Ptr) and isinstance(p.off, VOff):
        return AStr(st.obj(p.obj).info.leaf(p.off.sub, Str, p.off.idx))
    return AStr(fresh('str', Str))


def gets(E, st, p):
    """string object at p"""
    return E.aget(st, p, AStr, mkstr_sym)


def scat(E, a, b):
    if b.lit is None and b.t.decl().eq(cat):        # concatenations are kept nested to the left
        x, y = b.t.children()
        return scat(E, scat(E, a, AStr(x)), AStr(y))
    if a.lit is not None and b.lit is not None:
        return lit(E, a.lit + b.lit)
    if a.lit == b'':
        return b
    if b.lit == b'':
        return a
    return AStr(cat(a.t, b.t))


def str_eq(E, a, b):
    if a.lit is not None and b.lit is not None:
        return z3.BoolVal(a.lit == b.lit)
    return simp(a.t == b.t)


def is_string(t):
    t = t.replace('std::__cxx11::', 'std::')
    return t.startswith('std::basic_string<')


def sarg(c, i, t):
    """string value of argument i whose C++ type is t"""
    E, st = c.E, c.st
    t = t.strip()
    if is_string(t):
        return gets(E, st, c[i])
    if t == 'char const*':
        return cstr(E, st, c[i])
    if t == 'char':
        if is_lit(c[i]):
            return lit(E, bytes([c[i].as_long()]))
        return AStr(z3.Function('schar', z3.BitVecSort(8), Str)(c[i]))
    raise Unsupported('string operand ' + t)


def sret(c, a):
    """return a string object"""
    c.E.aset(c.st, c.sret, a)
    return UNDEF


@contract('std::basic_string::basic_string')
def string_ctor(c):
    ps = [p.strip() for p in params(c.dem)]
    E, st = c.E, c.st
    if ps and (ps[-1].startswith('std::allocator<') or 'Allocator' in ps[-1].split('<')[0] or 'allocator' in ps[-1].lower().split('<')[0]):
        ps = ps[:-1]
    this = c[0]
    if not ps:
        E.aset(st, this, lit(E, b''))
    elif len(ps) == 1 and is_string(ps[0]):
        s = gets(E, st, c[1])
        E.aset(st, this, s)
        if ps[0].endswith('&&') and isinstance(c[1], Ptr):
            E.aset(st, c[1], AStr(fresh('moved', Str)))
    elif ps == ['char const*']:
        E.aset(st, this, cstr(E, st, c[1]))
    elif len(ps) == 2 and ps[0] == 'char const*' and ps[1] == 'unsigned long':
        E.aset(st, this, bytes_n(E, st, c[1], c[2]))
    elif len(ps) == 2 and is_string(ps[0]) and not ps[1].startswith('unsigned'):
        E.aset(st, this, gets(E, st, c[1]))
    elif len(ps) == 2 and ps[0].startswith('__gnu_cxx::__normal_iterator<char'):
        from .lib_text import between
        E.aset(st, this, between(c, c[1], c[2]))
    else:
        raise Unsupported('string constructor (%s)' % ', '.join(ps))
    return UNDEF


@contract('std::basic_string::~basic_string', 'std::allocator::allocator', 'std::allocator::~allocator', 'std::__new_allocator::~__new_allocator',
          'std::basic_string::reserve', 'std::basic_string::shrink_to_fit')
def nothing(c):
    return UNDEF


@contract('std::basic_string::operator=')
def string_assign(c):
    ps = params(c.dem)
    s = sarg(c, 1, ps[0])
    c.E.aset(c.st, c[0], s)
    if ps[0].endswith('&&') and isinstance(c[1], Ptr) and c[1].obj != c[0].obj:
        c.E.aset(c.st, c[1], AStr(fresh('moved', Str)))
    return c[0]


@contract('std::basic_string::assign')
def string_assign2(c):
    ps = params(c.dem)
    if len(ps) == 2 and ps[0].strip() == 'char const*':
        s = bytes_n(c.E, c.st, c[1], c[2])
    elif len(ps) == 1:
        s = sarg(c, 1, ps[0])
    else:
        raise Unsupported('string assign')
    c.E.aset(c.st, c[0], s)
    return c[0]


@contract('std::basic_string::operator+=', 'std::basic_string::append')
def string_append(c):
    ps = params(c.dem)
    E, st = c.E, c.st
    if len(ps) == 1:
        b = sarg(c, 1, ps[0])
    elif len(ps) == 2 and ps[0].strip() == 'char const*':
        b = bytes_n(E, st, c[1], c[2])
    else:
        raise Unsupported('string append (%s)' % ', '.join(ps))
    E.aset(st, c[0], scat(E, gets(E, st, c[0]), b))
    return c[0]


@contract('std::basic_string::push_back')
def string_push(c):
    E, st = c.E, c.st
    E.aset(st, c[0], scat(E, gets(E, st, c[0]), sarg(c, 1, 'char')))
    return UNDEF


def strbuf(E, st, s, extra=0):
    """object id of the bytes of a string value (extra: the terminating null byte may be read)"""
    id = ('str', s.t.get_id(), extra)
    if id not in st.mem:
        from .engine import Obj
        E.str_keep.append(s.t)
        n = str_len(E, st, s)
        f = (lambda i: sbyte(s.t, i)) if not extra else (lambda i: z3.If(i == n, bv(0, 8), sbyte(s.t, i)))
        o = Obj(id, None, 'mem', ('buf', f, simp(n + extra), s), 'string')
        o.owner = st.sid
        st.mem[id] = o
    return id


@contract('std::basic_string::begin', 'std::basic_string::cbegin')
def string_begin(c):
    return Ptr(strbuf(c.E, c.st, gets(c.E, c.st, c[0])), bv(0))


@contract('std::basic_string::end', 'std::basic_string::cend')
def string_end(c):
    s = gets(c.E, c.st, c[0])
    return Ptr(strbuf(c.E, c.st, s), str_len(c.E, c.st, s))


@contract('std::basic_string::operator[]')
def string_at(c):
    s = gets(c.E, c.st, c[0])
    c.E.oblige(c.st, 'memory.string index within bounds', z3.ULE(c[1], str_len(c.E, c.st, s)), 'safety')
    return Ptr(strbuf(c.E, c.st, s, 1), c[1])


@contract('std::basic_string::clear')
def string_clear(c):
    c.E.aset(c.st, c[0], lit(c.E, b''))
    return UNDEF


@contract('std::operator+')
def string_plus(c):
    ps = params(c.dem)
    if len(ps) != 2 or not (is_string(ps[0]) or is_string(ps[1])):
        return NotImplemented
    a = sarg(c, 0, ps[0])
    b = sarg(c, 1, ps[1])
    return sret(c, scat(c.E, a, b))


@contract('std::operator==', 'std::operator!=')
def string_eq(c):
    ps = params(c.dem)
    if len(ps) != 2 or not (is_string(ps[0]) or is_string(ps[1])):
        return NotImplemented
    r = str_eq(c.E, sarg(c, 0, ps[0]), sarg(c, 1, ps[1]))
    return r if '==' in canon(c.dem) else simp(z3.Not(r))


@contract('std::basic_string::compare')
def string_compare(c):
    ps = params(c.dem)
    if len(ps) != 1:
        raise Unsupported('string compare')
    a, b = gets(c.E, c.st, c[0]), sarg(c, 1, ps[0])
    r = z3.Function('scompare', Str, Str, z3.BitVecSort(32))(a.t, b.t)
    c.st.assume((r == 0) == (a.t == b.t))
    return r


@contract('std::basic_string::c_str', 'std::basic_string::data')
def string_cstr(c):
    s = gets(c.E, c.st, c[0])
    o = c.st.new(None, 'cstr', s, 'c_str')
    return Ptr(o.id, 0)


def str_len(E, st, s):
    if s.lit is not None:
        return bv(len(s.lit))
    n = slen(s.t)
    return n


@contract('std::basic_string::size', 'std::basic_string::length')
def string_size(c):
    return str_len(c.E, c.st, gets(c.E, c.st, c[0]))


@contract('std::basic_string::empty')
def string_empty(c):
    s = gets(c.E, c.st, c[0])
    if s.lit is not None:
        return z3.BoolVal(s.lit == b'')
    return s.t == c.E.str_lit(b'')


@contract('valijson::utils::u8_strlen')
def u8_strlen(c):
    E, st = c.E, c.st
    if E.verifying == 'u8_strlen':
        return NotImplemented
    if not isinstance(c[0], Ptr) or st.obj(c[0].obj).kind != 'cstr' or c[0].off != 0:
        raise Unsupported('u8_strlen of unknown memory')
    s = st.obj(c[0].obj).info
    n = c[1]
    E.oblige(st, 'precondition of u8_strlen: the length does not exceed the buffer', z3.ULE(n, str_len(E, st, s)), 'pre')
    E.assumed.add('contract: u8_strlen(s, n) reads nothing outside the n bytes and counts the code points of well-formed UTF-8 (proved as strings.u8_strlen)')
    return z3.If(n == str_len(E, st, s), codepoints(s.t), z3.Function('codepoints_of_prefix', Str, BV64, BV64)(s.t, n))


@contract('std::to_string')
def to_string(c):
    p = params(c.dem)[0].strip()
    v = c[0]
    if isinstance(v, z3.FPRef):
        return sret(c, AStr(tostrd(v)))
    if is_lit(v):
        x = v.as_long() if p.startswith('unsigned') else v.as_signed_long()
        return sret(c, lit(c.E, str(x)))
    v = v if v.size() == 64 else (z3.ZeroExt if p.startswith('unsigned') else z3.SignExt)(64 - v.size(), v)
    if not p.startswith('unsigned'):
        return sret(c, AStr(simp(tostr_signed(v))))
    return sret(c, AStr(tostr(v)))


# ------------------------------------------------------------------ immutable sequences (containers that the code only reads)
class Seq:
    """Elements of a container read by the code: leaves are functions of the index."""
    def __init__(self, name, kind, ps=(), n=None, key=None, ksort=Str):
        self.name, self.kind, self.ps, self.ksort = name, kind, tuple(ps), ksort
        self.key = key                       # sub-offset of the key string for set/map
        self.n = n if n is not None else z3.Function('n_' + name, *[p.sort() for p in self.ps], BV64)(*self.ps) if self.ps else z3.Const('n_' + name, BV64)

    def id(self):
        return ('seq', self.name) + tuple(p.get_id() for p in self.ps)

    def leaf(self, sub, sort, idx):
        f = z3.Function('%s@%s_%s' % (self.name, sub, sort), *[p.sort() for p in self.ps], BV64, sort)
        return f(*self.ps, idx)

    def child(self, idx, sub, kind, key=None, ksort=Str):
        return Seq('%s@%s' % (self.name, sub), kind, self.ps + (idx,), key=key, ksort=ksort)

    def keyat(self, idx):
        return self.leaf(self.key, self.ksort, idx)

    def find(self, s):
        f = z3.Function('find_' + self.name, *[p.sort() for p in self.ps], self.ksort, BV64)
        return f(*self.ps, s)


class ASeq(Abs):
    """container object whose contents are a Seq"""
    def __init__(self, seq):
        self.seq = seq

    def same(self, o):
        return self.seq.id() == o.seq.id() and self.seq.n.eq(o.seq.n)


class AEmpty(Abs):
    """freshly constructed container: kind and C++ type"""
    def __init__(self, kind, dem):
        self.kind, self.dem = kind, dem

    def same(self, o):
        return self.kind == o.kind


def register_seq(E, seq):
    """facts about the keys of a set or map, instantiated on demand"""
    if seq.kind in ('set', 'map'):
        f = seq.find(z3.Const('x', seq.ksort)).decl()
        g = seq.leaf(seq.key, seq.ksort, bv(0)).decl()
        key = ('regseq', seq.name)
        if key in E.registered:
            return
        E.registered.add(key)
        k = len(seq.ps)

        def ax_find(*a):
            s2 = Seq(seq.name, seq.kind, a[:k], key=seq.key, ksort=seq.ksort)
            if not seq.ps:
                s2.n = seq.n
            i = f(*a)
            return [z3.ULE(i, s2.n), z3.Implies(z3.ULT(i, s2.n), s2.keyat(i) == a[k])]

        def ax_key(*a):
            s2 = Seq(seq.name, seq.kind, a[:k], key=seq.key, ksort=seq.ksort)
            if not seq.ps:
                s2.n = seq.n
            return [z3.Implies(z3.ULT(a[k], s2.n), f(*a[:k], g(*a)) == a[k])]
        E.watch(f, ax_find)
        E.watch(g, ax_key)


def seq_ptr(E, st, seq, idx, sub=0):
    id = seq.id()
    if id not in st.mem:
        from .engine import Obj
        o = Obj(id, None, 'seq', seq, seq.name)
        o.owner = st.sid
        st.mem[id] = o
        register_seq(E, seq)
    return Ptr(id, VOff(idx, sub))


def the_seq(c, p):
    E, st = c.E, c.st

    def mk(E, st, p):
        return ASeq(subseq(E, st, p, c.dem))
    a = E.aget(st, p, None, mk)
    if isinstance(a, AEmpty):
        return Seq('empty', a.kind, n=bv(0), key=0)
    if isinstance(a, ASeq):
        return a.seq
    if isinstance(a, AStrs):
        return Seq('strs', 'vector', (a.t,))
    return a


def kind_of(dem):
    n = canon(dem)
    for k in ('vector', 'map', 'set', 'deque', 'unordered_map'):
        if n.startswith('std::%s::' % k):
            return k
    raise Unsupported('container of ' + n)


def key_sort(dem):
    for k in ('set', 'map'):
        a = targs(dem, 'std::' + k)
        if a:
            t = a[0].replace('std::__cxx11::', 'std::')
            return Str if t.startswith('std::basic_string<') else z3.BitVecSort(32)
    return Str


def key_arg(c, i, a):
    """key passed by reference as argument i"""
    if a == Str:
        return gets(c.E, c.st, c[i]).t
    return c.E.load(c.st, c[i], c.E.INT(a.size()))


def subseq(E, st, p, dem):
    """container inside an element of another container"""
    if isinstance(p, Ptr) and isinstance(p.off, VOff):
        o = st.obj(p.obj)
        k = kind_of(dem)
        return o.info.child(p.off.idx, p.off.sub, k, 0 if k in ('set', 'map') else None, key_sort(dem))
    if isinstance(p, Opq):
        k = kind_of(dem)
        f = 'ctr_%s_%s' % (p.tag or 'o', p.off)
        return Seq(f, k, (p.t,), key=0 if k in ('set', 'map') else None, ksort=key_sort(dem))
    raise Unsupported('container at %r' % (p,))


def seq_load(E, st, o, p, t, n):
    """load of a scalar from an element of a Seq"""
    if o.kind != 'seq':
        return None
    seq = o.info
    off = p.off
    E.oblige(st, 'memory.element access of %s within bounds' % seq.name, z3.ULT(off.idx, seq.n), 'safety')
    if t.k == 'ptr':
        tag = E.elem_tags.get((seq.name, off.sub))
        return Opq(seq.leaf(off.sub, BV64, off.idx), 0, tag)
    if t.k == 'int':
        return seq.leaf(off.sub, z3.BitVecSort(t.a) if t.a > 1 else z3.BoolSort(), off.idx)
    if t.k == 'double':
        return seq.leaf(off.sub, F64, off.idx)
    raise Unsupported('element load')


def seq_abs(E, st, o, p, cls, make):
    if o.kind != 'seq':
        return None
    seq, off = o.info, p.off
    E.oblige(st, 'memory.element access of %s within bounds' % seq.name, z3.ULT(off.idx, seq.n), 'safety')
    if cls is AStr:
        return AStr(seq.leaf(off.sub, Str, off.idx))
    if make is not None:
        return make(E, st, p)
    return None


ITER = {}


@contract('std::vector::begin', 'std::map::begin', 'std::set::begin', 'std::vector::cbegin', 'std::map::cbegin', 'std::set::cbegin')
def ctr_begin(c):
    return seq_ptr(c.E, c.st, the_seq(c, c[0]), bv(0))


@contract('std::vector::end', 'std::map::end', 'std::set::end', 'std::vector::cend', 'std::map::cend', 'std::set::cend')
def ctr_end(c):
    a = the_seq(c, c[0])
    if isinstance(a, ASet):
        return Opq(bv(2), 0, 'setit')
    if isinstance(a, Abs):
        return NotImplemented
    return seq_ptr(c.E, c.st, a, a.n)


@contract('std::vector::size', 'std::map::size', 'std::set::size')
def ctr_size(c):
    a = the_seq(c, c[0])
    if isinstance(a, ASet):
        return a.n
    if isinstance(a, Abs):
        return a.size(c)
    return a.n


@contract('std::vector::empty', 'std::map::empty', 'std::set::empty')
def ctr_empty(c):
    a = the_seq(c, c[0])
    if isinstance(a, ASet):
        return a.n == 0
    if isinstance(a, Abs):
        return a.size(c) == 0
    return simp(a.n == 0)


@contract('std::vector::operator[]', 'std::vector::at')
def vec_index(c):
    a = the_seq(c, c[0])
    if isinstance(a, Abs):
        return a.index(c)
    if canon(c.dem).endswith('::at'):
        def bad(k):
            raise Throw('_ZTISt12out_of_range')
        return c.split(z3.ULT(c[1], a.n), lambda k: seq_ptr(k.E, k.st, a, c[1]), bad)
    c.E.oblige(c.st, 'memory.vector index within bounds', z3.ULT(c[1], a.n), 'safety')
    return seq_ptr(c.E, c.st, a, c[1])


@contract('std::map::find', 'std::set::find', 'std::set::count', 'std::map::count')
def ctr_find(c):
    E, st = c.E, c.st
    a = the_seq(c, c[0])
    s = key_arg(c, 1, key_sort(c.dem))
    cnt = canon(c.dem).endswith('count')
    if isinstance(a, ASet):
        m = z3.Select(a.arr, s)
        return z3.If(m, bv(1), bv(0)) if cnt else Opq(z3.If(m, bv(1), bv(2)), 0, 'setit')
    if is_lit(a.n) and a.n.as_long() == 0:
        i = bv(0)
    else:
        register_seq(E, a)
        i = a.find(s)
    if cnt:
        return z3.If(z3.ULT(i, a.n), bv(1), bv(0))
    return seq_ptr(E, st, a, i)


@contract('std::_Rb_tree_const_iterator::operator*', 'std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_const_iterator::operator->',
          'std::_Rb_tree_iterator::operator->')
def tree_deref(c):
    p = c.E.load(c.st, c[0], c.E.PTR)
    if isinstance(p, Ptr) and isinstance(p.off, VOff):
        c.E.oblige(c.st, 'memory.iterator dereferenced within bounds', z3.ULT(p.off.idx, c.st.obj(p.obj).info.n), 'safety')
        return p
    raise Unsupported('tree iterator')


@contract('std::_Rb_tree_const_iterator::operator++', 'std::_Rb_tree_iterator::operator++')
def tree_inc(c):
    p = c.E.load(c.st, c[0], c.E.PTR)
    if isinstance(p, Ptr) and isinstance(p.off, VOff):
        c.E.oblige(c.st, 'memory.iterator advanced within bounds', z3.ULT(p.off.idx, c.st.obj(p.obj).info.n), 'safety')
        c.E.store(c.st, c[0], Ptr(p.obj, VOff(simp(p.off.idx + 1), p.off.sub)), c.E.PTR)
        if params(c.dem):
            return p
        return c[0]
    raise Unsupported('tree iterator')


# containers under construction --------------------------------------------------------------
@contract('std::vector::vector', 'std::map::map', 'std::set::set')
def ctr_ctor(c):
    ps = [p for p in params(c.dem) if 'llocator<' not in p.split('<')[0] + '<' and not p.startswith('std::less')]
    E, st = c.E, c.st
    k = kind_of(c.dem)
    if not ps:
        if k == 'set' and E.mutable_sets:
            E.aset(st, c[0], ASet(z3.K(key_sort(c.dem), z3.BoolVal(False)), bv(0), c.dem))
        elif k == 'vector' and 'ValidationResults::Segment' in c.dem and E.abstract_paths:
            E.aset(st, c[0], APath(path_nil))
        elif k == 'vector' and getattr(E, 'use_strs', False) and is_string(targs(c.dem, 'std::vector')[0]):
            E.aset(st, c[0], AStrs(strs_nil))
        else:
            E.aset(st, c[0], AEmpty(k, c.dem))
        return UNDEF
    if len(ps) == 1 and ps[0].startswith('std::' + k + '<'):
        a = E.aget(st, c[1], None, lambda E, st, p: mksym_ctr(E, st, p, c.dem))
        E.aset(st, c[0], a)
        return UNDEF
    raise Unsupported('container constructor (%s)' % ', '.join(ps))


def mksym_ctr(E, st, p, dem):
    if 'ValidationResults::Segment' in dem and E.abstract_paths:
        return APath(fresh('path', PathS))
    return ASeq(subseq(E, st, p, dem))


@contract('std::vector::operator=', 'std::map::operator=', 'std::set::operator=')
def ctr_assign(c):
    a = c.E.aget(c.st, c[1], None, lambda E, st, p: mksym_ctr(E, st, p, c.dem))
    c.E.aset(c.st, c[0], a)
    return c[0]


@contract('std::vector::~vector', 'std::map::~map', 'std::set::~set', 'std::deque::~deque', 'std::unordered_map::~unordered_map')
def ctr_dtor(c):
    return UNDEF


class ASet(Abs):
    """std::set<std::string> built by the code"""
    def __init__(self, arr, n, dem=None):
        self.arr, self.n, self.dem = arr, n, dem

    def same(self, o):
        return isinstance(o, ASet) and self.arr.eq(o.arr) and self.n.eq(o.n)

    def havoc(self, E, label):
        return ASet(fresh('set_' + label, self.arr.sort()), fresh('card_' + label, BV64), self.dem)

    def leaves(self):
        return [('set', self.arr), ('n', self.n)]


@contract('std::set::insert', 'std::set::emplace')
def set_insert(c):
    E, st = c.E, c.st
    a = E.aget(st, c[0], None)
    if isinstance(a, AEmpty):
        a = ASet(z3.K(key_sort(c.dem), z3.BoolVal(False)), bv(0))
    if not isinstance(a, ASet):
        return NotImplemented
    s = key_arg(c, 1, a.arr.sort().domain())
    had = z3.Select(a.arr, s)
    E.aset(st, c[0], ASet(z3.Store(a.arr, s, z3.BoolVal(True)), simp(z3.If(had, a.n, a.n + 1)), a.dem))
    v = Agg([Opq(bv(1), 0, 'setit'), z3.If(had, bv(0, 8), bv(1, 8))])
    if c.sret is not None:
        E.store(st, c.sret, v.v[0], E.PTR)
        E.store(st, E.padd(c.sret, 8), v.v[1], E.INT(8))
        return UNDEF
    return v


# ------------------------------------------------------------------ paths of validation errors
PathS = z3.DeclareSort('Path')
path_nil = z3.Const('path_nil', PathS)
path_push = z3.Function('path_push', PathS, z3.BitVecSort(32), Str, PathS)


class APath(Abs):
    def __init__(self, t):
        self.t = t

    def same(self, o):
        return self.t.eq(o.t)

    def havoc(self, E, label):
        return APath(fresh('path_' + label, PathS))


def getpath(E, st, p):
    return E.aget(st, p, APath, lambda E, st, p: APath(fresh('path', PathS)))


@contract('std::vector::push_back', 'std::vector::emplace_back')
def vec_push(c):
    E, st = c.E, c.st
    a = E.aget(st, c[0], None)
    if isinstance(a, APath):
        seg = c[1]
        kind = E.load(st, seg, E.INT(32))
        name = gets(E, st, E.padd(seg, 8))
        E.aset(st, c[0], APath(path_push(a.t, kind, name.t)))
        return UNDEF
    if isinstance(a, AEmpty) and targs(a.dem, 'std::vector') and is_string(targs(a.dem, 'std::vector')[0]):
        a = AStrs(strs_nil)
    if isinstance(a, AStrs):
        E.aset(st, c[0], AStrs(strs_push(a.t, gets(E, st, c[1]).t)))
        return UNDEF
    if isinstance(a, AEmpty) and E.on_push:
        return E.on_push(c, a)
    return NotImplemented


StrsS = z3.DeclareSort('Strs')
strs_nil = z3.Const('strs_nil', StrsS)
strs_push = z3.Function('strs_push', StrsS, Str, StrsS)


class AStrs(Abs):
    """std::vector<std::string> that is only built and copied"""
    def __init__(self, t):
        self.t = t

    def same(self, o):
        return self.t.eq(o.t)

    def havoc(self, E, label):
        return AStrs(fresh('strs_' + label, StrsS))

    def inv_leaves(self):
        return [('', 'val', lambda a: a.t)]


def getstrs(E, st, p):
    a = E.aget(st, p, None)
    return strs_nil if isinstance(a, AEmpty) else a.t


# ------------------------------------------------------------------ error queue
class AErrQ(Abs):
    """queue of errors: positions head..tail-1 of an array of error records"""
    def __init__(self, head, tail, arr):
        self.head, self.tail, self.arr = head, tail, arr

    def same(self, o):
        return self.head.eq(o.head) and self.tail.eq(o.tail) and self.arr.eq(o.arr)

    def havoc(self, E, label):
        return AErrQ(fresh('head_' + label, BV64), fresh('tail_' + label, BV64), fresh('errs_' + label, z3.ArraySort(BV64, ErrS)))


ErrS = z3.DeclareSort('ErrRec')
err_of = z3.Function('err_of', PathS, Str, ErrS)


def new_queue():
    return AErrQ(bv(0), bv(0), z3.K(BV64, z3.Const('no_err', ErrS)))


@contract('std::deque::deque')
def deque_ctor(c):
    if params(c.dem):
        raise Unsupported('deque constructor')
    c.E.aset(c.st, c[0], new_queue())
    return UNDEF


mk_err = z3.Function('mk_err', StrsS, Str, Str, ErrS)
err_get = [z3.Function('err_context', ErrS, StrsS), z3.Function('err_description', ErrS, Str), z3.Function('err_pointer', ErrS, Str)]


def err_record(E, st, p):
    oc, od, op = E.err_offsets
    return mk_err(getstrs(E, st, E.padd(p, oc)), gets(E, st, E.padd(p, od)).t, gets(E, st, E.padd(p, op)).t)


@contract('std::deque::push_back', 'std::deque::emplace_back')
def deque_push(c):
    E, st = c.E, c.st
    q = E.aget(st, c[0], AErrQ)
    E.aset(st, c[0], AErrQ(q.head, simp(q.tail + 1), z3.Store(q.arr, q.tail, err_record(E, st, c[1]))))
    return UNDEF


@contract('std::deque::front')
def deque_front(c):
    E, st = c.E, c.st
    q = E.aget(st, c[0], AErrQ)
    E.oblige(st, 'precondition of front: the queue is not empty', q.head != q.tail, 'pre')
    rec = z3.Select(q.arr, q.head)
    o = st.new(None, 'mem', name='front of the queue')
    oc, od, op = E.err_offsets
    o.abs[oc], o.abs[od], o.abs[op] = AStrs(err_get[0](rec)), AStr(err_get[1](rec)), AStr(err_get[2](rec))
    return Ptr(o.id, 0)


@contract('std::deque::pop_front')
def deque_pop(c):
    E, st = c.E, c.st
    q = E.aget(st, c[0], AErrQ)
    E.oblige(st, 'precondition of pop_front: the queue is not empty', q.head != q.tail, 'pre')
    E.aset(st, c[0], AErrQ(simp(q.head + 1), q.tail, q.arr))
    return UNDEF


@contract('std::deque::empty')
def deque_empty(c):
    q = c.E.aget(c.st, c[0], AErrQ)
    return q.head == q.tail


@contract('std::deque::size')
def deque_size(c):
    q = c.E.aget(c.st, c[0], AErrQ)
    return simp(q.tail - q.head)


def qfind(E, st, p):
    """(address, queue) inside the ValidationResults object at p"""
    if not isinstance(p, Ptr):
        raise Unsupported('ValidationResults at %r' % (p,))
    o = st.obj(p.obj)
    for off, a in o.abs.items():
        if isinstance(a, AErrQ) and off >= p.off:
            return Ptr(p.obj, off), a
    raise Unsupported('no error queue')


def err_key(E, st, p):
    """record stored for the Error object at p (context, description, jsonPointer strings)"""
    return E.aget(st, p, AErrV, lambda E, st, p: AErrV(fresh('err', ErrS)))


class AErrV(Abs):
    def __init__(self, t):
        self.t = t

    def same(self, o):
        return self.t.eq(o.t)

    def havoc(self, E, label):
        return AErrV(fresh('err_' + label, ErrS))


@contract('valijson::ValidationResults::pushError')
def push_error(c):
    E, st = c.E, c.st
    a, q = qfind(E, st, c[0])
    ps = params(c.dem)
    if len(ps) == 2:
        rec = err_of(getpath(E, st, c[1]).t, gets(E, st, c[2]).t)
        if E.on_error:
            E.on_error(c, getpath(E, st, c[1]).t)
    else:
        rec = err_key(E, st, c[1]).t
    E.aset(st, a, AErrQ(q.head, simp(q.tail + 1), z3.Store(q.arr, q.tail, rec)))
    st.assume(z3.ULT(q.tail, bv(1 << 60)))
    return UNDEF


@contract('valijson::ValidationResults::popError')
def pop_error(c):
    E, st = c.E, c.st
    a, q = qfind(E, st, c[0])

    def some(k):
        E.aset(k.st, a, AErrQ(simp(q.head + 1), q.tail, q.arr))
        E.aset(k.st, c[1], AErrV(z3.Select(q.arr, q.head)))
        return z3.BoolVal(True)
    return c.split(q.head != q.tail, some, lambda k: z3.BoolVal(False))


@contract('valijson::ValidationResults::Error::Error')
def err_ctor(c):
    if len(params(c.dem)) == 1:
        c.E.aset(c.st, c[0], err_key(c.E, c.st, c[1]))
    else:
        c.E.aset(c.st, c[0], AErrV(fresh('err0', ErrS)))
    return UNDEF


@contract('valijson::ValidationResults::Error::~Error')
def err_dtor(c):
    return UNDEF


# ------------------------------------------------------------------ exceptions, memory
@contract('operator_new')
def op_new(c):
    n = c[0]
    if not is_lit(n):
        raise Unsupported('allocation of symbolic size')
    return Ptr(c.st.new(n.as_long(), name='heap').id, 0)


@contract('operator_delete')
def op_delete(c):
    p = c[0]
    if isinstance(p, Ptr):
        o = c.st.mem.get(p.obj)
        c.E.oblige(c.st, 'memory.delete of a live allocation', o is not None and p.off == 0, 'safety')
        c.st.mem.pop(p.obj, None)
    return UNDEF


@contract('__cxa_allocate_exception')
def cxa_alloc(c):
    return Ptr(c.st.new(max(16, c[0].as_long()), name='exception').id, 0)


@contract('__cxa_free_exception', '__cxa_guard_abort', '__cxa_guard_release', '__cxa_end_catch')
def cxa_nop(c):
    return UNDEF


@contract('__cxa_guard_acquire')
def cxa_guard(c):
    """static local: initialised on first use; every use re-runs the initialiser, which must be deterministic"""
    return bv(1, 32)


@contract('__cxa_atexit')
def cxa_atexit(c):
    return bv(0, 32)


@contract('__cxa_throw')
def cxa_throw(c):
    ti = c[1]
    raise Throw(ti.obj[1] if isinstance(ti, Ptr) else str(ti))


@contract('__cxa_rethrow')
def cxa_rethrow(c):
    raise Throw(c.st.exc.ti)


@contract('__cxa_begin_catch')
def cxa_begin(c):
    E, st = c.E, c.st
    if ('what',) not in st.mem:
        from .engine import Obj, FnPtr
        E.m.dem.setdefault('_ZNKSt9exception4whatEv', 'std::exception::what() const')
        v = Obj(('what',), 64, 'ext', None, 'virtual table of an exception')
        v.cells[16] = (8, FnPtr('_ZNKSt9exception4whatEv'))
        st.mem[('what',)] = v
    o = st.new(16, 'sym', name='caught')
    o.cells[0] = (8, Ptr(('what',), 0))
    return Ptr(o.id, 0)


@contract('std::exception::what', 'std::runtime_error::what')
def exc_what(c):
    o = c.st.new(None, 'cstr', AStr(fresh('message', Str)), 'what')
    return Ptr(o.id, 0)


@contract('std::runtime_error::runtime_error', 'std::logic_error::logic_error', 'std::out_of_range::out_of_range',
          'std::invalid_argument::invalid_argument')
def exc_ctor(c):
    return UNDEF


@contract('std::runtime_error::~runtime_error')
def exc_dtor(c):
    return UNDEF


@contract('std::terminate', '__clang_call_terminate')
def std_terminate(c):
    c.E.oblige(c.st, 'control.std::terminate is not reached', z3.BoolVal(False), 'safety')
    return Multi([])


@contract('std::isfinite')
def isfinite(c):
    x = c[0]
    if not isinstance(x, z3.FPRef):
        return NotImplemented
    return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))


@contract('modf')
def c_modf(c):
    x = c[0]
    ip = z3.fpRoundToIntegral(z3.RTZ(), x)
    c.E.store(c.st, c[1], ip, c.E.DOUBLE)
    # the fractional part is exact: zero just when x is integral (or infinite)
    r = z3.Function('modf_fraction', F64, F64)(x)
    c.st.assume(z3.fpEQ(r, z3.FPVal(0.0, F64)) == z3.fpEQ(ip, x))
    return r


@contract('remainder')
def c_remainder(c):
    return z3.fpRem(c[0], c[1])


@contract('fmod')
def c_fmod(c):
    # fmod is exact: r = x - y*trunc(x/y) computed without rounding
    return z3.Function('fmod', F64, F64, F64)(c[0], c[1])


# ------------------------------------------------------------------ numeric strings
@contract('valijson::internal::parseDouble')
def parse_double(c):
    s = gets(c.E, c.st, c[0]).t

    def yes(k):
        k.E.store(k.st, k[1], pd_val(s), k.E.DOUBLE)
        return z3.BoolVal(True)
    return c.split(pd_ok(s), yes, lambda k: z3.BoolVal(False))


def char_range(c, a, b):
    """string value [a, b), a pointing into a string"""
    E, st = c.E, c.st
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj):
        raise Unsupported('range of characters')
    o = st.obj(a.obj)
    s = o.info if o.kind == 'cstr' else o.info[3] if o.kind == 'mem' and o.info and o.info[0] == 'buf' and len(o.info) > 3 else None
    if s is None:
        raise Unsupported('range of characters')
    from .engine import off_term
    n, f, l = str_len(E, st, s), off_term(a.off), off_term(b.off)
    E.oblige(st, 'memory.range of characters within the string', z3.And(z3.ULE(f, l), z3.ULE(l, n)), 'safety')
    if is_lit(simp(f)) and simp(f).as_long() == 0 and E.valid(st, l == n)[0] == 'unsat':
        return s.t
    return z3.Function('ssub', Str, BV64, BV64, Str)(s.t, f, simp(l - f))


fc_fns = {}


def fc(fmt):
    """std::from_chars for double: error code, characters matched, value"""
    if fmt not in fc_fns:
        t = '' if fmt == 3 else '_fmt%d' % fmt
        fc_fns[fmt] = (z3.Function('from_chars_ec' + t, Str, z3.BitVecSort(32)), z3.Function('from_chars_length' + t, Str, BV64), z3.Function('from_chars_value' + t, Str, F64))
    return fc_fns[fmt]


@contract('std::from_chars')
def from_chars(c):
    ps = params(c.dem)
    if len(ps) < 3 or ps[2].strip() != 'double&':
        raise Unsupported('from_chars ' + c.dem)
    fmt = 3 if len(c.args) < 4 else simp(c[3]).as_long() if is_lit(simp(c[3])) else None
    if fmt is None:
        raise Unsupported('from_chars format')
    s = char_range(c, c[0], c[1])
    ec, ln, val = fc(fmt)
    E = c.E
    c.st.assume(z3.ULE(ln(s), slen(s)))
    c.st.assume(z3.Or(ec(s) == 0, z3.And(ec(s) == 22, ln(s) == 0), ec(s) == 34))
    c.st.assume(z3.Implies(ec(s) != 22, ln(s) != 0))

    def yes(k):
        E.store(k.st, k[2], val(s), E.DOUBLE)
        return Agg([E.padd(k[0], ln(s)), bv(0, 32)])

    def no(k):          # the value is left alone
        return Agg([E.padd(k[0], ln(s)), ec(s)])
    return c.split(ec(s) == 0, yes, no)


class AIStream(Abs):
    """input string stream: string, number of extractions done, state good?, mode (locale set to the classic one, white space skipped)"""
    def __init__(self, s, pos, good, classic=False, skip=True):
        self.s, self.pos, self.good, self.classic, self.skip = s, pos, good, classic, skip

    def same(self, o):
        return self.s.eq(o.s) and self.pos == o.pos and self.good.eq(o.good) and self.classic == o.classic and self.skip == o.skip

    def but(self, **k):
        a = AIStream(self.s, self.pos, self.good, self.classic, self.skip)
        for n, v in k.items():
            setattr(a, n, v)
        return a

    def fns(self):
        """what an extraction finds depends on the mode; only in the classic locale and without skipping is it the library's grammar"""
        if self.classic and not self.skip:
            return ipref_ok, ipref_val, irest
        t = '%s%s' % ('' if self.classic else '_in_global_locale', '_after_space' if self.skip else '')
        return (z3.Function('starts_with_integer' + t, Str, z3.BoolSort()), z3.Function('leading_integer_of' + t, Str, BV64),
                z3.Function('has_text_after_integer' + t, Str, z3.BoolSort()))


@contract('std::locale::classic')
def locale_classic(c):
    return Opq(z3.Const('classic_locale', BV64), 0, 'classic')


@contract('std::basic_ios::imbue')
def ios_imbue(c):
    off, a = iss_obj(c)
    if not (isinstance(c[1], Opq) and c[1].tag == 'classic'):
        raise Unsupported('imbue of another locale')
    c.st.wobj(c[0].obj).abs[off] = a.but(classic=True)
    return UNDEF


@contract('std::locale::~locale')
def locale_dtor(c):
    return UNDEF


@contract('std::noskipws')
def noskipws(c):
    off, a = iss_obj(c)
    c.st.wobj(c[0].obj).abs[off] = a.but(skip=False)
    return c[0]


def stream_vtable(E, st):
    if 'stream_vtable' not in E.__dict__:
        E.stream_vtable = next(_ids)
    if E.stream_vtable not in st.mem:
        from .engine import Obj
        o = Obj(E.stream_vtable, 64, 'ext', None, 'stream vtable')
        o.cells[0] = (8, bv(120))
        st.mem[E.stream_vtable] = o
    return Ptr(E.stream_vtable, 24)


import itertools
from .engine import _cnt as _ids


@contract('std::basic_istringstream::basic_istringstream')
def iss_ctor(c):
    s = gets(c.E, c.st, c[1]).t
    c.E.store(c.st, c[0], stream_vtable(c.E, c.st), c.E.PTR)
    c.E.aset(c.st, c.E.padd(c[0], 8), AIStream(s, 0, z3.BoolVal(True)))
    return UNDEF


def iss_obj(c):
    for k in range(min(2, len(c.args))):
        if isinstance(c[k], Ptr):
            for off, a in c.st.obj(c[k].obj).abs.items():
                if isinstance(a, AIStream):
                    return off, a
    raise Unsupported('stream')


@contract('std::basic_istream::operator>>', 'std::istream::operator>>')
def iss_int(c):
    ps = params(c.dem)
    off, a = iss_obj(c)
    if ps and isinstance(c[1], FnPtr) and c[1].name == '_ZSt8noskipwsRSt8ios_base':
        c.st.wobj(c[0].obj).abs[off] = a.but(skip=False)
        return c[0]
    if not ps or ps[0].strip() not in ('long&', 'long&') or a.pos != 0:
        raise Unsupported('stream extraction ' + c.dem)
    ok, value, _ = a.fns()

    def yes(k):
        k.E.store(k.st, k[1], value(a.s), k.E.INT(64))
        k.st.wobj(k[0].obj).abs[off] = a.but(pos=1, good=z3.BoolVal(True))
        return k[0]

    def no(k):
        k.E.store(k.st, k[1], fresh('failed_extraction', BV64), k.E.INT(64))
        k.st.wobj(k[0].obj).abs[off] = a.but(pos=1, good=z3.BoolVal(False))
        return k[0]
    return c.split(ok(a.s), yes, no)


@contract('std::basic_istream::get', 'std::istream::get')
def iss_get(c):
    off, a = iss_obj(c)
    if a.pos != 1:
        raise Unsupported('stream get')
    g = simp(z3.And(a.good, a.fns()[2](a.s)))

    def yes(k):
        k.E.store(k.st, k[1], fresh('char', z3.BitVecSort(8)), k.E.INT(8))
        k.st.wobj(k[0].obj).abs[off] = a.but(pos=2, good=z3.BoolVal(True))
        return k[0]

    def no(k):
        k.st.wobj(k[0].obj).abs[off] = a.but(pos=2, good=z3.BoolVal(False))
        return k[0]
    return c.split(g, yes, no)


@contract('std::basic_ios::operator!', 'std::basic_ios::fail')
def ios_not(c):
    return simp(z3.Not(iss_obj(c)[1].good))


@contract('std::basic_ios::operator_bool', 'std::basic_ios::operator')
def ios_bool(c):
    return iss_obj(c)[1].good


@contract('std::basic_istringstream::~basic_istringstream')
def iss_dtor(c):
    return UNDEF
