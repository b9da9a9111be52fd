"""Contracts of the searching and editing operations of std::string, of strtoul / stoul, and of vectors of strings that are
built and read. Positions are 64-bit words; npos is the word of all ones."""
import z3
from .engine import Ptr, Opq, FnPtr, Agg, UNDEF, Str, BV64, bv, fresh, is_lit, simp, Throw, Multi, Abs, off_term, VOff
from .ir import Unsupported
from .names import canon, params, targs
from . import lib_std as S
from .lib_std import contract, AStr, gets, cstr, lit, slen, sbyte, cat, scat, str_len, is_string, sret, AStrs, Seq, AEmpty

NPOS = bv((1 << 64) - 1)
B8 = z3.BitVecSort(8)
sfind = z3.Function('first_position', Str, Str, BV64, BV64)             # of a text, at or after a position
srfind = z3.Function('last_position', Str, Str, BV64, BV64)             # at or before a position
snot = z3.Function('first_position_of_others', Str, Str, BV64, BV64)    # of a character that is not listed
sany = z3.Function('first_position_of_any', Str, Str, BV64, BV64)
ssub = z3.Function('ssub', Str, BV64, BV64, Str)
schar = z3.Function('schar', B8, Str)
stoul_ec = z3.Function('stoul_fails', Str, B8)                          # 0: no, 1: no digits, 2: out of range
stoul_val = z3.Function('stoul_value', Str, BV64)
nstrs = lambda t: Seq('strs', 'vector', (t,))
strs_pop = z3.Function('strs_pop', S.StrsS, S.StrsS)


def lit_bytes(E, t):
    for b, c in E.str_lits.items():
        if c.eq(t):
            return b
    return None


def sub(E, st, s, pos, n):
    """the part of s that starts at pos and is n long; pos + n within s"""
    pos, n = simp(pos), simp(n)
    if s.lit is not None and is_lit(pos) and is_lit(n):
        return lit(E, s.lit[pos.as_long():pos.as_long() + n.as_long()])
    if is_lit(n) and n.as_long() == 0:
        return lit(E, b'')
    return AStr(ssub(s.t, pos, n))


def clip(n, most):
    return simp(z3.If(z3.ULT(n, most), n, most))


def throws(k, cond, what, f):
    def bad(q):
        raise Throw('_ZTISt12' + what if what == 'out_of_range' else what)
    return k.split(cond, f, bad)


def pattern(c, i=1):
    """text searched for, and the position from which (or None)"""
    ps = [p.strip() for p in params(c.dem)]
    s = S.sarg(c, i, ps[i - 1])
    if len(ps) > 2:
        raise Unsupported('search (%s)' % ', '.join(ps))
    return s, c[i + 1] if len(ps) > 1 else None


def one_char(s):
    return s.lit is not None and len(s.lit) == 1


@contract('std::basic_string::find')
def string_find(c):
    p, k = pattern(c)
    return sfind(gets(c.E, c.st, c[0]).t, p.t, k if k is not None else bv(0))


@contract('std::basic_string::rfind')
def string_rfind(c):
    p, k = pattern(c)
    return srfind(gets(c.E, c.st, c[0]).t, p.t, k if k is not None else NPOS)


@contract('std::basic_string::find_first_of')
def string_find_first_of(c):
    p, k = pattern(c)
    ch = params(c.dem)[0].strip() == 'char'
    return (sfind if ch or one_char(p) else sany)(gets(c.E, c.st, c[0]).t, p.t, k if k is not None else bv(0))


@contract('std::basic_string::find_last_of')
def string_find_last_of(c):
    p, k = pattern(c)
    if not (params(c.dem)[0].strip() == 'char' or one_char(p)):
        raise Unsupported('find_last_of several characters')
    return srfind(gets(c.E, c.st, c[0]).t, p.t, k if k is not None else NPOS)


@contract('std::basic_string::find_first_not_of')
def string_find_not(c):
    p, k = pattern(c)
    return snot(gets(c.E, c.st, c[0]).t, p.t, k if k is not None else bv(0))


@contract('std::basic_string::substr')
def string_substr(c):
    s = gets(c.E, c.st, c[0])
    n = str_len(c.E, c.st, s)
    pos, k = c[1], c[2]
    return throws(c, z3.ULE(pos, n), 'out_of_range', lambda q: sret(q, sub(q.E, q.st, s, pos, clip(k, n - pos))))


@contract('std::basic_string::erase')
def string_erase(c):
    ps = params(c.dem)
    if not ps or not ps[0].strip().startswith('unsigned long'):
        raise Unsupported('string erase')
    s = gets(c.E, c.st, c[0])
    n = str_len(c.E, c.st, s)
    pos, k = c[1], c[2]

    def yes(q):
        q.E.aset(q.st, q[0], edited(q.E, q.st, s, n, pos, clip(k, n - pos), lit(q.E, b'')))
        return q[0]
    return throws(c, z3.ULE(pos, n), 'out_of_range', yes)


def edited(E, st, s, n, pos, k, by):
    """s with the k characters at pos replaced"""
    rest = simp(n - pos - k)
    tail = lit(E, b'') if is_lit(rest) and rest.as_long() == 0 else sub(E, st, s, pos + k, rest)
    return scat(E, scat(E, sub(E, st, s, bv(0), pos), by), tail)


@contract('std::basic_string::replace')
def string_replace(c):
    ps = [p.strip() for p in params(c.dem)]
    if len(ps) < 3 or not ps[0].startswith('unsigned long') or not ps[1].startswith('unsigned long'):
        raise Unsupported('string replace (%s)' % ', '.join(ps))
    if len(ps) == 3:
        by = S.sarg(c, 3, ps[2])
    elif len(ps) == 4 and ps[2].startswith('unsigned long') and ps[3] == 'char' and is_lit(c[3]):
        by = lit(c.E, b'')
        for _ in range(c[3].as_long()):
            by = scat(c.E, by, AStr(schar(c[4])) if not is_lit(c[4]) else lit(c.E, bytes([c[4].as_long()])))
    else:
        raise Unsupported('string replace (%s)' % ', '.join(ps))
    s = gets(c.E, c.st, c[0])
    n = str_len(c.E, c.st, s)
    pos, k = c[1], c[2]

    def yes(q):
        q.E.aset(q.st, q[0], edited(q.E, q.st, s, n, pos, clip(k, n - pos), by))
        return q[0]
    return throws(c, z3.ULE(pos, n), 'out_of_range', yes)


@contract('strlen')
def c_strlen(c):
    s = cstr(c.E, c.st, c[0])
    return str_len(c.E, c.st, s)


def buf_of(st, p):
    """string whose bytes p walks through, or None"""
    if isinstance(p, Ptr) and p.obj in st.mem:
        o = st.obj(p.obj)
        if o.kind == 'mem' and o.info and o.info[0] == 'buf' and len(o.info) > 3:
            return o.info[3]
    return None


def between(c, a, b):
    """text between two iterators or pointers"""
    E, st = c.E, c.st
    s = buf_of(st, a)
    if s is None or not isinstance(b, Ptr) or b.obj != a.obj:
        raise Unsupported('text between iterators')
    f, l, n = off_term(a.off), off_term(b.off), str_len(E, st, s)
    E.oblige(st, 'memory.range of characters within the string', z3.And(z3.ULE(f, l), z3.ULE(l, n)), 'safety')
    if is_lit(f) and f.as_long() == 0 and l.eq(n):
        return s
    return sub(E, st, s, f, l - f)


@contract('std::find')
def std_find(c):
    E, st = c.E, c.st
    s = buf_of(st, c[0])
    if s is None or not isinstance(c[1], Ptr) or c[1].obj != c[0].obj:
        return NotImplemented
    f, l, n = off_term(c[0].off), off_term(c[1].off), str_len(E, st, s)
    E.oblige(st, 'memory.range of characters within the string', z3.And(z3.ULE(f, l), z3.ULE(l, n)), 'safety')
    ch = E.load(st, c[2], E.INT(8))
    p = lit(E, bytes([ch.as_long()])) if is_lit(ch) else AStr(schar(ch))
    r = sfind(s.t, p.t, f)
    return Ptr(c[0].obj, clip(r, l))


def is_null(p):
    return isinstance(p, Opq) and is_lit(p.t) and p.t.as_long() == 0 or is_lit(p) and p.as_long() == 0 if not isinstance(p, Ptr) else False


@contract('std::stoul', 'std::stoull')
def std_stoul(c):
    if not is_null(c[1]) or not is_lit(c[2]) or c[2].as_long() != 10:
        raise Unsupported('stoul')
    s = gets(c.E, c.st, c[0]).t

    def no(q):
        def inv(k):
            raise Throw('_ZTISt16invalid_argument')

        def rng(k):
            raise Throw('_ZTISt12out_of_range')
        return q.split(stoul_ec(s) == 1, inv, rng)
    return c.split(stoul_ec(s) == 0, lambda q: stoul_val(s), no)


def hexdigit(b):
    r = lambda x, y: z3.And(z3.UGE(b, ord(x)), z3.ULE(b, ord(y)))
    return z3.Or(r('0', '9'), r('a', 'f'), r('A', 'F'))


def hexvalue(b):
    return z3.If(z3.ULE(b, ord('9')), b - ord('0'), z3.If(z3.ULE(b, ord('F')), b - (ord('A') - 10), b - (ord('a') - 10)))


@contract('strtoul', '__isoc23_strtoul')
def c_strtoul(c):
    E, st = c.E, c.st
    o = st.obj(c[0].obj) if isinstance(c[0], Ptr) else None
    if o is None or o.kind != 'cstr' or c[0].off != 0 or not is_lit(c[2]):
        raise Unsupported('strtoul')
    s, base = o.info.t, c[2].as_long()
    b0, b1 = sbyte(s, bv(0)), sbyte(s, bv(1))
    two = z3.And(slen(s) == 2, hexdigit(b0), hexdigit(b1)) if base == 16 else z3.BoolVal(False)
    end = z3.Function('strtoul_end_%d' % base, Str, BV64)(s)
    val = z3.Function('strtoul_value_%d' % base, Str, BV64)(s)
    st.assume(z3.ULE(end, slen(s)))
    st.assume(z3.Implies(two, z3.And(end == 2, val == z3.ZeroExt(56, hexvalue(b0) * 16 + hexvalue(b1)))))
    if isinstance(c[1], Ptr) and c[1].obj in st.mem:
        E.store(st, c[1], Ptr(c[0].obj, end), E.PTR)
    return val


@contract('__errno_location')
def errno_location(c):
    E = c.E
    id = ('errno',)
    if id not in c.st.mem:
        from .engine import Obj
        o = Obj(id, 4, 'mem', None, 'errno')
        o.owner = c.st.sid
        o.cells[0] = (4, fresh('errno', z3.BitVecSort(32)))
        c.st.mem[id] = o
    return Ptr(id, 0)


# ------------------------------------------------------------------ vectors of strings
@contract('std::vector::back')
def vec_back(c):
    a = S.the_seq(c, c[0])
    if isinstance(a, AStrs):
        a = nstrs(a.t)
    if isinstance(a, Abs):
        return NotImplemented
    c.E.oblige(c.st, 'memory.back() of a vector that is not empty', a.n != 0, 'safety')
    return S.seq_ptr(c.E, c.st, a, simp(a.n - 1))


@contract('std::vector::pop_back')
def vec_pop(c):
    a = c.E.aget(c.st, c[0], None)
    if not isinstance(a, AStrs):
        return NotImplemented
    c.E.oblige(c.st, 'memory.pop_back() of a vector that is not empty', nstrs(a.t).n != 0, 'safety')
    c.E.aset(c.st, c[0], AStrs(strs_pop(a.t)))
    return UNDEF


# ------------------------------------------------------------------ facts about strings, instantiated on demand
def setup(E):
    """laws of concatenation, parts, lengths and bytes"""
    E.text_js = []      # positions at which 'nothing earlier' is used
    empty = E.str_lit(b'')
    big = bv(1 << 31)

    def kids(s):
        return s.decl(), s.children()

    def len_ax(s):
        out = [z3.ULT(slen(s), big), (slen(s) == 0) == (s == empty)]
        b = lit_bytes(E, s)
        if b is not None:
            return [slen(s) == len(b)]
        if z3.is_app_of(s, z3.Z3_OP_ITE):
            c, a, b = s.children()
            return [slen(s) == z3.If(c, slen(a), slen(b))]
        if s.num_args():
            d, a = kids(s)
            if d.eq(cat):
                out.append(slen(s) == slen(a[0]) + slen(a[1]))
            elif d.eq(ssub):
                out.append(z3.Implies(z3.And(z3.ULE(a[1], slen(a[0])), z3.ULE(a[2], slen(a[0]) - a[1])), slen(s) == a[2]))
            elif d.eq(schar):
                out.append(slen(s) == 1)
        return out

    def byte_ax(s, i):
        b = lit_bytes(E, s)
        if b is not None:
            return [z3.Implies(i == k, sbyte(s, i) == x) for k, x in enumerate(b)]
        if not s.num_args():
            return []
        d, a = kids(s)
        if z3.is_app_of(s, z3.Z3_OP_ITE):
            return [sbyte(s, i) == z3.If(a[0], sbyte(a[1], i), sbyte(a[2], i))]
        if d.eq(cat):
            n = slen(a[0])
            return [sbyte(s, i) == z3.If(z3.ULT(i, n), sbyte(a[0], i), sbyte(a[1], i - n))]
        if d.eq(ssub):
            return [z3.Implies(z3.And(z3.ULE(a[1], slen(a[0])), z3.ULE(a[2], slen(a[0]) - a[1]), z3.ULT(i, a[2])), sbyte(s, i) == sbyte(a[0], simp(a[1] + i)))]
        if d.eq(schar):
            return [z3.Implies(i == 0, sbyte(s, i) == a[0])]
        return []

    def cat_ax(a, b):
        return [z3.Implies(a == empty, cat(a, b) == b), z3.Implies(b == empty, cat(a, b) == a)]

    def sub_ax(s, p, n):
        return [z3.Implies(z3.And(p == 0, n == slen(s)), ssub(s, p, n) == s), z3.Implies(n == 0, ssub(s, p, n) == empty), slen(ssub(s, p, n)) == slen(ssub(s, p, n))]

    def found(f, down):
        def ax(s, p, k):
            r = f(s, p, k)
            b = lit_bytes(E, p)
            m = slen(p) if b is None else bv(len(b))
            inside = [z3.ULE(r, k) if down else z3.ULE(k, r), z3.ULT(r, slen(s)), z3.ULE(m, slen(s) - r)]
            if b is not None:
                inside += [sbyte(s, simp(r + i)) == x for i, x in enumerate(b)]
            out = [z3.Or(r == NPOS, z3.And(inside))] if b is None or len(b) else []
            if b is not None and len(b) == 1:
                for j in E.text_js:
                    between = z3.And(z3.ULE(j, k), z3.Or(r == NPOS, z3.UGT(j, r))) if down else z3.And(z3.ULE(k, j), z3.Or(r == NPOS, z3.ULT(j, r)))
                    out.append(z3.Implies(z3.And(between, z3.ULT(j, slen(s))), sbyte(s, j) != b[0]))
            return out
        return ax

    def not_ax(s, p, k):
        r = snot(s, p, k)
        b = lit_bytes(E, p)
        if b is None:
            return []
        inset = lambda x: z3.Or([x == y for y in b])
        out = [z3.Or(r == NPOS, z3.And(z3.ULE(k, r), z3.ULT(r, slen(s)), z3.Not(inset(sbyte(s, r)))))]
        for j in [bv(0), bv(1)] + E.text_js:
            out.append(z3.Implies(z3.And(z3.ULE(k, j), z3.ULT(j, slen(s)), z3.Or(r == NPOS, z3.ULT(j, r))), inset(sbyte(s, j))))
        return out
    digits = E.str_lit(b'0123456789')

    def stoul_ax(s):
        return [z3.ULE(stoul_ec(s), 2), z3.Implies(s == empty, stoul_ec(s) == 1),
                z3.Implies(z3.And(s != empty, snot(s, digits, bv(0)) == NPOS), stoul_ec(s) != 1)]
    short = {}

    def short_literals(apps, formulas):
        for b, t in list(E.str_lits.items()):
            if len(b) <= 3 and b not in short:
                short[b] = [slen(t) == len(b)] + [sbyte(t, bv(k)) == x for k, x in enumerate(b)]
        return [f for fs in short.values() for f in fs]
    E.axiom_hooks.append(short_literals)
    E.watch(slen, len_ax)
    E.watch(sbyte, byte_ax)
    E.watch(cat, cat_ax)
    E.watch(ssub, sub_ax)
    E.watch(sfind, found(sfind, False))
    E.watch(srfind, found(srfind, True))
    E.watch(snot, not_ax)
    E.watch(stoul_ec, stoul_ax)
