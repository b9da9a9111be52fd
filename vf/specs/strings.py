"""Specifications of the functions on strings: counting code points."""
from .base import *

SPECS = {}


def spec(name, prop):
    def d(f):
        SPECS[name] = (prop, f)
        return f
    return d


# ------------------------------------------------------------------ P05: code points
def u8(E, wellformed):
    """u8_strlen(s, n): reads only s[0..n); for well-formed UTF-8 the result is the number of code points, which is the number
    of bytes that do not continue a sequence"""
    E.verifying = 'u8_strlen'
    st = State()
    byte = z3.Function('byte', BV64, z3.BitVecSort(8))
    n = z3.ZeroExt(32, z3.Const('length', z3.BitVecSort(32)))
    o = st.new(None, 'mem', ('buf', byte, n), 'the string')
    starts = lambda i: (byte(i) & 0xC0) != 0x80
    E.len_terms.append(n)
    count = cnt_fold(E, 'code_points_before', starts, use=False)
    if wellformed:
        def size(i):
            b = byte(i)
            return z3.If(z3.ULT(b, 0x80), bv(1), z3.If(z3.ULT(b, 0xE0), bv(2), z3.If(z3.ULT(b, 0xF0), bv(3), bv(4))))

        def wf(i):
            """the sequence that starts at i is complete and is followed by the start of another one"""
            k = size(i)
            return z3.Implies(z3.And(z3.ULT(i, n), starts(i)), z3.And(
                z3.ULT(byte(i), 0xF8), z3.ULE(k, n - i), z3.And([z3.Implies(z3.UGT(k, j), z3.Not(starts(i + j))) for j in (1, 2, 3)]),
                z3.Or(i + k == n, starts(i + k))))

        def hook(apps, formulas):
            out = []
            for f in formulas:
                for a in E.walk(f).values():
                    if a.decl().get_id() == count.d.get_id():
                        i = a.arg(0)
                        out.append(wf(i))
                        for j in range(4):
                            c = count(simp(i + j))
                            out.append(count(simp(i + j + 1)) == c + z3.If(starts(simp(i + j)), bv(1), bv(0)))
            return out
        E.axiom_hooks.append(hook)
        st.assume(z3.Or(n == 0, starts(bv(0))))

        def template(E, entry, h, L, depth, Cand):
            I = [l for l in L if l.kind in ('int64', 'off')]
            return [Cand('%s == count(%s)' % (a.name, b.name), lambda E, s, d, a=a, b=b: a.get(s, d) == count(b.get(s, d))) for a in I for b in I if a is not b] + [Cand('a sequence starts at %s' % l.name, lambda E, s, d, l=l: z3.Or(l.get(s, d) == n, starts(l.get(s, d)))) for l in I]
        E.templates.append(template)
    E.fname = 'utils::u8_strlen'
    k = 0
    for s in E.call(st, 'vp_u8_strlen', [Ptr(o.id, 0), n]):
        k += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', z3.BoolVal(False), 'post')
        elif wellformed:
            E.oblige(s, 'the code points of well-formed UTF-8 are counted', s.ret == count(n), 'post')
    return k


spec('u8_strlen', 'P05')(lambda E: u8(E, False))
spec('u8_wellformed', 'P05')(lambda E: u8(E, True))


# ------------------------------------------------------------------ P19: decimal numbers
def parse_double(E):
    """parseDouble(s, r): true exactly if std::from_chars matches the whole text and finds a finite value, which is stored; r
    is left alone otherwise. This is what parses_as_double / double_value_of stand for in the other proofs."""
    E.verifying = 'parseDouble'
    E.handlers.pop('valijson::internal::parseDouble', None)
    st = State()
    s = z3.Const('text', Str)
    E.watch(S.slen, lambda t: [z3.ULT(S.slen(t), bv(1 << 31)), (S.slen(t) == 0) == (t == E.str_lit(b''))])
    i = st.new(32, 'mem', name='input')
    i.abs[0] = S.AStr(s)
    r = st.new(8, 'mem', name='result')
    before = z3.Const('before', S.F64)
    r.cells[0] = (8, before)
    ec, ln, val = S.fc(3)
    v = val(s)
    good = z3.And(ec(s) == 0, ln(s) == S.slen(s), z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
    E.fname = 'internal::parseDouble'
    k = 0
    for f in E.call(st, 'vp_parse_double', [Ptr(i.id, 0), Ptr(r.id, 0)]):
        k += 1
        if f.status == 'throw':
            E.oblige(f, 'no exception escapes', z3.BoolVal(False), 'post')
            continue
        now = E.load(f, Ptr(r.id, 0), E.DOUBLE)
        E.oblige(f, 'true exactly for the decimal numbers', to_b(E, f.ret) == good, 'post')
        E.oblige(f, 'the value is stored for decimal numbers and for nothing else', now == z3.If(good, v, before), 'post')
    return k


spec('parseDouble', 'P19')(parse_double)


def run(module, name):
    p, f = SPECS[name]
    E = new_engine(module)
    E.fname = name
    E.nfinals = f(E)
    return E
