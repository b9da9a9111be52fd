"""Contracts of std::regex objects made from a literal pattern, std::regex_match, std::match_results and std::stoi. The
pattern found in the code is parsed, and what it matches is expressed over the length and the bytes of the text; groups get the
values that a backtracking matcher (first alternative first, greedy) gives them.

Not modelled: the depth of the recursion of libstdc++'s matcher (see known-findings.txt)."""
import z3
from .engine import Ptr, Opq, UNDEF, Str, BV64, bv, fresh, is_lit, simp, Throw, Abs, zadd, off_term
from .ir import Unsupported
from .names import canon, params
from . import lib_std as S
from . import lib_text as T
from .lib_std import contract, AStr, gets, cstr, slen, sbyte, sret

run_of = z3.Function('run_length', Str, BV64, z3.BitVecSort(256), BV64)     # how many bytes of a class follow from a position on
stoi_fails = z3.Function('stoi_fails', Str, z3.BitVecSort(8))
stoi_value = z3.Function('stoi_value', Str, z3.BitVecSort(32))
DIGITS = frozenset(range(48, 58))


# ------------------------------------------------------------------ patterns
class Rx:
    def __init__(self, pat):
        self.p, self.i, self.groups = pat.decode('latin-1'), 0, 0
        self.tree = self.alt()
        if self.i != len(self.p):
            raise Unsupported('regex: ' + self.p)

    def more(self):
        return self.i < len(self.p)

    def alt(self):
        out = [self.seq()]
        while self.more() and self.p[self.i] == '|':
            self.i += 1
            out.append(self.seq())
        return ('alt', out) if len(out) > 1 else out[0]

    def seq(self):
        out = []
        while self.more() and self.p[self.i] not in '|)':
            a = self.atom()
            while self.more() and self.p[self.i] in '?*+{':
                c = self.p[self.i]
                self.i += 1
                if c == '{':
                    j = self.p.index('}', self.i)
                    t = self.p[self.i:j]
                    self.i = j + 1
                    lo, _, hi = t.partition(',')
                    a = ('rep', a, int(lo), (int(hi) if hi else None) if ',' in t else int(lo))
                else:
                    a = ('rep', a, 1 if c == '+' else 0, 1 if c == '?' else None)
                if self.more() and self.p[self.i] == '?':
                    raise Unsupported('regex: lazy quantifier')
            out.append(a)
        return ('seq', out)

    def atom(self):
        c = self.p[self.i]
        self.i += 1
        if c == '(':
            g = None
            if self.p.startswith('?:', self.i):
                self.i += 2
            elif self.p.startswith('?', self.i):
                raise Unsupported('regex: lookahead')
            else:
                self.groups += 1
                g = self.groups
            a = self.alt()
            if not self.more() or self.p[self.i] != ')':
                raise Unsupported('regex: ' + self.p)
            self.i += 1
            return ('group', g, a) if g is not None else a
        if c == '[':
            neg = self.p[self.i] == '^'
            self.i += neg
            s = set()
            while self.p[self.i] != ']':
                a = self.chars(self.p[self.i])
                if len(a) == 1 and self.p[self.i] == '-' and self.p[self.i + 1] != ']':
                    self.i += 1
                    b = self.chars(self.p[self.i])
                    a = set(range(min(a), min(b) + 1))
                s |= a
            self.i += 1
            return ('set', frozenset(range(256)) - frozenset(s) if neg else frozenset(s))
        if c == '^':
            return ('start',)
        if c == '$':
            return ('end',)
        if c == '.':
            return ('set', frozenset(range(256)) - {10, 13})
        self.i -= 1
        return ('set', frozenset(self.chars(c)))

    def chars(self, c):
        self.i += 1
        if c == '[':
            raise Unsupported('regex: named class')
        if c != '\\':
            return {ord(c)}
        c = self.p[self.i]
        self.i += 1
        if c == 'd':
            return set(DIGITS)
        if c.isalnum():
            raise Unsupported('regex: \\' + c)
        return {ord(c)}


def first(node):
    """(bytes a match may start with, whether it may be empty)"""
    k = node[0]
    if k == 'set':
        return set(node[1]), False
    if k in ('start', 'end'):
        return set(), True
    if k == 'group':
        return first(node[2])
    if k == 'rep':
        f, e = first(node[1])
        return f, e or node[2] == 0
    if k == 'alt':
        fs = [first(a) for a in node[1]]
        return set().union(*[f for f, _ in fs]), any(e for _, e in fs)
    out = set()
    for a in node[1]:
        f, e = first(a)
        out |= f
        if not e:
            return out, False
    return out, True


def in_set(b, s):
    rs, l = [], sorted(s)
    for x in l:
        if rs and rs[-1][1] == x - 1:
            rs[-1][1] = x
        else:
            rs.append([x, x])
    f = z3.Or([b == lo if lo == hi else z3.And(z3.UGE(b, lo), z3.ULE(b, hi)) for lo, hi in rs])
    return simp(f) if not rs else f


def mask(s):
    return z3.BitVecVal(sum(1 << x for x in s), 256)


class Out:
    __slots__ = ('end', 'cond', 'caps')

    def __init__(self, end, cond, caps):
        self.end, self.cond, self.caps = end, cond, caps


def key(end):
    return end if isinstance(end, int) else end.get_id()


def merged(outs):
    """ways that end at the same place become one, as long as no way in between could have been taken instead"""
    res = []
    for o in outs:
        for n, q in enumerate(res):
            if key(q.end) == key(o.end) and (n == len(res) - 1 or q.caps == o.caps == {} and all(r.caps == {} for r in res[n:])):
                caps = {}
                for g in set(q.caps) | set(o.caps):
                    a, b = q.caps.get(g), o.caps.get(g)
                    if a is not None and b is not None and all(x is y or (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)) or (isinstance(x, int) and isinstance(y, int) and x == y) for x, y in zip(a, b)):
                        caps[g] = a
                        continue
                    no = (z3.BoolVal(False), 0, 0)
                    a, b = a or no, b or no
                    caps[g] = (simp(z3.If(q.cond, a[0], b[0])), simp(z3.If(q.cond, off_term(a[1]), off_term(b[1]))), simp(z3.If(q.cond, off_term(a[2]), off_term(b[2]))))
                res[n] = Out(q.end, z3.Or(q.cond, o.cond), caps)
                break
        else:
            res.append(o)
    if len(res) > 200:
        raise Unsupported('regex: too many ways')
    return res


def ways(E, s, n, node, pos, follow, tail):
    """ways to match node from pos on. follow: bytes that may come next"""
    k = node[0]
    if k == 'set':
        return [Out(zadd(pos, 1), in_set(sbyte(s, off_term(pos)), node[1]), {})]
    if k == 'start':
        return [Out(pos, off_term(pos) == 0, {})]
    if k == 'end':
        return [Out(pos, off_term(pos) == n, {})]
    if k == 'group':
        return [Out(o.end, o.cond, {**o.caps, node[1]: (z3.BoolVal(True), pos, o.end)}) for o in ways(E, s, n, node[2], pos, follow, tail)]
    if k == 'alt':
        return merged([o for a in node[1] for o in ways(E, s, n, a, pos, follow, tail)])
    if k == 'rep':
        _, a, lo, hi = node
        if hi is None:
            if a[0] != 'set' or lo > 1:
                raise Unsupported('regex: repetition of a group')
            if a[1] & follow:
                raise Unsupported('regex: a repetition may have to give back what it matched')
            r = run_of(s, off_term(pos), mask(a[1]))
            return [Out(zadd(pos, r), z3.UGE(r, lo), {})]
        return ways(E, s, n, ('seq', [a] * lo + [('opt', a, hi - lo)]), pos, follow, tail) if hi > 1 or lo else ways(E, s, n, ('opt', a, 1), pos, follow, tail)
    if k == 'opt':
        _, a, m = node
        if m == 0:
            return [Out(pos, z3.BoolVal(True), {})]
        return merged(ways(E, s, n, ('seq', [a, ('opt', a, m - 1)]) if m > 1 else a, pos, follow, tail) + [Out(pos, z3.BoolVal(True), {})])
    outs = [Out(pos, z3.BoolVal(True), {})]
    for i, a in enumerate(node[1]):
        f, e = first_of(node[1][i + 1:])
        fol = f | follow if e else f
        new = []
        for o in outs:
            for q in ways(E, s, n, a, o.end, fol, tail):
                new.append(Out(q.end, z3.And(o.cond, q.cond), {**o.caps, **q.caps}))
        outs = merged(new)
    return outs


def first_of(nodes):
    out = set()
    for a in nodes:
        if a[0] == 'opt':
            f, e = first(a[1])[0], True
        else:
            f, e = first(a)
        out |= f
        if not e:
            return out, False
    return out, True


def whole_match(E, s, pattern):
    """the ways to match the whole text: [(condition, {group: (took part, first position, end)})], best first"""
    rx = Rx(pattern)
    n = slen(s)
    outs = []
    for o in ways(E, s, n, rx.tree, 0, set(), True):
        caps = {g: (m, off_term(b), off_term(e)) for g, (m, b, e) in o.caps.items()}
        caps[0] = (z3.BoolVal(True), bv(0), n)
        outs.append((z3.And(off_term(o.end) == n, o.cond), caps))
    return rx.groups + 1, outs


# ------------------------------------------------------------------ objects
class ARegex(Abs):
    def __init__(self, pat):
        self.pat = pat

    def same(self, o):
        return self.pat == o.pat


class AMatch(Abs):
    def __init__(self, obj=None, n=0):
        self.obj, self.n = obj, n


class AGroup(Abs):
    def __init__(self, s, took, b, e):
        self.s, self.took, self.b, self.e = s, took, b, e


@contract('std::basic_regex::basic_regex')
def regex_make(c):
    ps = params(c.dem)
    if not ps[0].strip().startswith('char const'):
        raise Unsupported('regex from (%s)' % ', '.join(ps))
    a = cstr(c.E, c.st, c[1])
    if a.lit is None or (len(ps) > 1 and (not is_lit(c[2]) or c[2].as_long() not in (0, 16))):
        raise Unsupported('regex that is not a literal ECMAScript pattern')
    c.E.aset(c.st, c[0], ARegex(a.lit))
    return UNDEF


@contract('std::basic_regex::~basic_regex')
def regex_end(c):
    return UNDEF


@contract('std::match_results::match_results')
def match_make(c):
    if params(c.dem) not in ([], ['']):
        raise Unsupported('match_results(%s)' % ', '.join(params(c.dem)))
    c.E.aset(c.st, c[0], AMatch())
    return UNDEF


@contract('std::match_results::~match_results')
def match_end(c):
    return UNDEF


@contract('std::match_results::operator[]')
def match_group(c):
    a = c.E.aget(c.st, c[0], AMatch)
    if a.obj is None or not is_lit(c[1]):
        raise Unsupported('groups of a match')
    k = min(c[1].as_long(), a.n)
    return Ptr(a.obj, 24 * k)


@contract('std::match_results::size')
def match_size(c):
    a = c.E.aget(c.st, c[0], AMatch)
    if a.obj is None:
        raise Unsupported('groups of a match')
    return bv(a.n)


def group_text(c, g):
    s = T.sub(c.E, c.st, AStr(g.s), g.b, g.e - g.b)
    return s if z3.is_true(g.took) else AStr(z3.If(g.took, s.t, c.E.str_lit(b'')))


@contract('std::sub_match::str', 'std::sub_match::operator basic_string')
def group_str(c):
    return sret(c, group_text(c, c.E.aget(c.st, c[0], AGroup)))


@contract('std::sub_match::length')
def group_len(c):
    g = c.E.aget(c.st, c[0], AGroup)
    return simp(z3.If(g.took, g.e - g.b, bv(0)))


@contract('std::regex_match')
def regex_match(c):
    E, st = c.E, c.st
    ps = [p.strip() for p in params(c.dem)]
    if not ps[0].startswith('std::') or 'basic_string' not in ps[0][:40]:
        raise Unsupported('regex_match (%s)' % ', '.join(ps))
    groups = 'match_results' in ps[1][:60]
    i = 2 if groups else 1
    r = E.aget(st, c[i], ARegex)
    if len(ps) > i + 1 and (not is_lit(c[i + 1]) or c[i + 1].as_long() != 0):
        raise Unsupported('regex_match with flags')
    s = gets(E, st, c[0]).t
    n, outs = whole_match(E, s, r.pat)
    any_way = simp(z3.Or([w for w, _ in outs]))
    if not groups:
        return any_way
    m = c[1]

    def result(q, caps):
        if caps is None:
            q.E.aset(q.st, m, AMatch())
            return z3.BoolVal(False)
        o = q.st.new(24 * (n + 1), 'mem', name='groups')
        for g in range(n + 1):
            t, b, e = caps.get(g, (z3.BoolVal(False), bv(0), bv(0)))
            o.cells[24 * g + 16] = (1, simp(z3.If(t, bv(1, 8), bv(0, 8))))
            o.abs[24 * g] = AGroup(s, simp(t), b, e)
        q.E.aset(q.st, m, AMatch(o.id, n))
        return z3.BoolVal(True)

    def try_(i):
        def f(q):
            if i == len(outs):
                return result(q, None)
            return q.split(outs[i][0], lambda k: result(k, outs[i][1]), try_(i + 1))
        return f
    if len(outs) > 16:
        raise Unsupported('regex_match: too many ways')
    return try_(0)(c)


@contract('std::stoi', 'std::__cxx11::stoi')
def std_stoi(c):
    if not T.is_null(c[1]) or not is_lit(c[2]) or c[2].as_long() != 10:
        raise Unsupported('stoi')
    s = gets(c.E, c.st, c[0]).t

    def no(q):
        def inv(k):
            raise Throw('_ZTISt16invalid_argument')

        def rng(k):
            raise Throw('_ZTISt12out_of_range')
        return q.split(stoi_fails(s) == 1, inv, rng)
    if c.E.check(list(c.st.pc) + [stoi_fails(s) != 0], 10000)[0] == z3.unsat:
        return stoi_value(s)
    return c.split(stoi_fails(s) == 0, lambda q: stoi_value(s), no)


# ------------------------------------------------------------------ static objects
@contract('__cxa_guard_acquire')
def guard(c):
    c.E.assumed.add('static locals: what is shown for the first execution holds for later ones, which find the object it made (the initialisers depend on literals only)')
    return bv(1, 32)


@contract('__cxa_guard_release', '__cxa_guard_abort')
def unguard(c):
    return UNDEF


@contract('__cxa_atexit')
def at_exit(c):
    return bv(0, 32)


def isdigit(b):
    return z3.And(z3.UGE(b, 48), z3.ULE(b, 57))


def setup(E):
    def stoi_ax(s):
        out = [z3.ULE(stoi_fails(s), 2)]
        for n in range(1, 5):
            bs = [sbyte(s, bv(i)) for i in range(n)]
            v = z3.BitVecVal(0, 32)
            for b in bs:
                v = v * 10 + z3.ZeroExt(24, b - 48)
            out.append(z3.Implies(z3.And(slen(s) == n, *[isdigit(b) for b in bs]), z3.And(stoi_fails(s) == 0, stoi_value(s) == v)))
        return out

    def run_ax(s, p, m):
        r = run_of(s, p, m)
        return [z3.If(z3.ULE(p, slen(s)), z3.ULE(r, slen(s) - p), r == 0)]

    def char_ax(x):
        out = []
        for b, t in list(E.str_lits.items()):
            if len(b) == 1:
                out.append((T.schar(x) == t) == (x == b[0]))
        return out
    sub_ax = E.ufwatch[T.ssub.get_id()][1]

    def one_ax(s, p, n):
        return sub_ax(s, p, n) + [z3.Implies(z3.And(n == 1, z3.ULT(p, slen(s))), T.ssub(s, p, n) == T.schar(sbyte(s, p)))]
    E.watch(stoi_fails, stoi_ax)
    E.watch(stoi_value, stoi_ax)
    E.watch(run_of, run_ax)
    E.watch(T.schar, char_ax)
    E.watch(T.ssub, one_ax)
