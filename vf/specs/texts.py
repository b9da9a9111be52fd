"""Specifications of JSON references, JSON Pointers and URIs."""
from .base import *
from .. import lib_text as T
from ..lib_text import NPOS, sfind, srfind, snot, ssub, sub, edited, hexdigit, hexvalue, schar
from ..lib_std import slen, sbyte, cat

SPECS = {}


def spec(f):
    SPECS[f.__name__] = f
    return f


def string(st, name, t=None):
    o = st.new(32, 'mem', name=name)
    o.abs[0] = AStr(z3.Const(name, Str) if t is None else t)
    return Ptr(o.id, 0), o.abs[0].t


def out_string(E, s, p):
    return S.gets(E, s, p).t


# ------------------------------------------------------------------ references
def reference(E, fn, there, value):
    st = State()
    p, r = string(st, 'reference')
    q, before = string(st, 'before')
    E.fname = fn
    n = 0
    for s in E.call(st, 'vp_ref_' + ('uri' if 'Uri' in fn else 'pointer'), [p, q]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', z3.BoolVal(False), 'post')
            continue
        E.oblige(s, 'present exactly if the reference has this part', to_b(E, s.ret) == there(r), 'post')
        E.oblige(s, 'this part of the reference', out_string(E, s, q) == z3.If(there(r), value(r), before), 'post')
    return n


def hash_at(E, r):
    return sfind(r, E.str_lit(b'#'), bv(0))


def uri_there(E, r):
    return hash_at(E, r) != 0


def uri_part(E, r):
    h = hash_at(E, r)
    return z3.If(h == NPOS, r, ssub(r, bv(0), h))


def ptr_there(E, r):
    return hash_at(E, r) != NPOS


def ptr_part(E, r):
    h = hash_at(E, r)
    return ssub(r, simp(h + 1), simp(slen(r) - (h + 1)))


@spec
def refUri(E):
    return reference(E, 'getJsonReferenceUri', lambda r: uri_there(E, r), lambda r: uri_part(E, r))


@spec
def refPointer(E):
    return reference(E, 'getJsonReferencePointer', lambda r: ptr_there(E, r), lambda r: ptr_part(E, r))


@spec
def refLemma(E):
    """the two parts put together, with '#' between them if there is a pointer, are the reference; the URI holds no '#'"""
    st = State()
    r, i = z3.Const('reference', Str), z3.Const('any_position', BV64)
    E.text_js.append(i)
    E.fname = 'lemma: references'
    u = z3.If(uri_there(E, r), uri_part(E, r), E.str_lit(b''))
    f = ptr_part(E, r)
    n, k = slen(r), slen(u)
    st.assume(z3.ULT(i, n))
    has = ptr_there(E, r)
    E.oblige(st, 'the lengths add up', z3.If(has, n == k + 1 + slen(f), n == k), 'post')
    E.oblige(st, 'every character is kept', sbyte(r, i) == z3.If(z3.ULT(i, k), sbyte(u, i), z3.If(i == k, bv(0x23, 8), sbyte(f, simp(i - k - 1)))), 'post')
    E.oblige(st, 'the URI contains no #', z3.Implies(z3.ULT(i, k), sbyte(u, i) != 0x23), 'post')
    E.oblige(st, 'a reference without # is all URI', z3.Implies(z3.Not(has), u == r), 'post')
    return 1


# ------------------------------------------------------------------ tokens
HEXLEN = 2


def hex_ok(d):
    return z3.And(slen(d) == 2, hexdigit(sbyte(d, bv(0))), hexdigit(sbyte(d, bv(1))))


def hex_val(d):
    return hexvalue(sbyte(d, bv(0))) * 16 + hexvalue(sbyte(d, bv(1)))


@spec
def decode(E):
    E.handlers.pop('valijson::internal::json_pointer::decodePercentEncodedChar')
    st = State()
    p, d = string(st, 'digits')
    E.fname = 'json_pointer::decodePercentEncodedChar'
    n = 0
    for s in E.call(st, 'vp_decode', [p]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'an error only if the text is not two hexadecimal digits', z3.Not(hex_ok(d)), 'post')
        else:
            E.oblige(s, 'the value of two hexadecimal digits', z3.And(hex_ok(d), s.ret == hex_val(d)), 'post')
    return n


pd_ok_ = z3.Function('percent_decodes', Str, BV64, z3.BoolSort())
pd_text = z3.Function('percent_decoded', Str, BV64, Str)
rep = z3.Function('replaced', Str, Str, Str, BV64, Str)
tok_ok = z3.Function('is_token', Str, z3.BoolSort())
tok_val = z3.Function('token', Str, Str)


def token_definitions(E):
    """what a token stands for: every %XX is decoded, one after the other from the left; then every ~1 becomes / and every ~0 ~"""
    pc = E.str_lit(b'%')

    def step(t, n):
        """the text at position n, where a '%' is"""
        rest = slen(t) - (n + 1)
        d = ssub(t, simp(n + 1), T.clip(bv(2), rest))
        t2 = edited(E, None, AStr(t), slen(t), n, T.clip(bv(3), slen(t) - n), AStr(schar(hex_val(d)))).t
        return d, t2, sfind(t2, pc, simp(n + 1))

    made = {}

    def once(t):
        """a text that comes from unfolding is not unfolded again"""
        if t.get_id() in made:
            return False
        return True

    def ax(t, n):
        if not once(t):
            return []
        d, t2, n2 = step(t, n)
        made[t2.get_id()] = t2
        return [z3.Implies(n == NPOS, z3.And(pd_ok_(t, n), pd_text(t, n) == t)),
                z3.Implies(n != NPOS, z3.And(pd_ok_(t, n) == z3.And(hex_ok(d), pd_ok_(t2, n2)), z3.Implies(hex_ok(d), pd_text(t, n) == pd_text(t2, n2))))]

    def rep_ax(a, b, t, p):
        if not once(t):
            return []
        m = sfind(t, a, p)
        t2 = edited(E, None, AStr(t), slen(t), m, T.clip(slen(a), slen(t) - m), AStr(b)).t
        made[t2.get_id()] = t2
        return [rep(a, b, t, p) == z3.If(m == NPOS, t, rep(a, b, t2, simp(m + slen(b))))]
    E.watch(pd_ok_, ax)
    E.watch(rep, rep_ax)
    E.tail_fns = [(pd_ok_, ()), (pd_text, ()), (rep, (E.str_lit(b'~1'), E.str_lit(b'/'))), (rep, (E.str_lit(b'~0'), E.str_lit(b'~')))]

    def template(E, entry, h, L, depth, Cand):
        """the rest of a computation gives what the whole of it gave"""
        out = []
        texts = [l for l in L if l.kind == 'val' and l.get(entry, depth).sort() == Str]
        poss = [l for l in L if l.kind in ('int64', 'off')]
        for f, ps in E.tail_fns:
            for a in texts:
                for b in poss:
                    v0 = f(*ps, a.get(entry, depth), b.get(entry, depth))
                    out.append(Cand('%s(%s, %s) is the same' % (f.name(), a.name, b.name), lambda E, s, d, f=f, ps=ps, a=a, b=b, v0=v0: f(*ps, a.get(s, d), b.get(s, d)) == v0))
        for a in texts:
            for b in poss:
                out.append(Cand('%s is a position of %s' % (b.name, a.name), lambda E, s, d, a=a, b=b: z3.ULE(b.get(s, d), slen(a.get(s, d)))))
                out.append(Cand('%s is none or a position in %s' % (b.name, a.name), lambda E, s, d, a=a, b=b: z3.Or(b.get(s, d) == NPOS, z3.ULT(b.get(s, d), slen(a.get(s, d))))))
        return out
    E.templates.append(template)


def token_meaning(E, t):
    n = sfind(t, E.str_lit(b'%'), bv(0))
    return pd_ok_(t, n), rep(E.str_lit(b'~0'), E.str_lit(b'~'), rep(E.str_lit(b'~1'), E.str_lit(b'/'), pd_text(t, n), bv(0)), bv(0))


@spec
def token(E):
    E.handlers.pop('valijson::internal::json_pointer::extractReferenceToken')
    token_definitions(E)
    st = State()
    p, s0 = string(st, 'pointer')
    b, e = z3.Const('begin', BV64), z3.Const('end', BV64)
    st.assume(z3.ULE(b, e), z3.ULE(e, slen(s0)))
    q = Ptr(st.new(32, 'mem', name='result').id, 0)
    E.fname = 'json_pointer::extractReferenceToken'
    t = ssub(s0, b, simp(e - b))
    ok, val = token_meaning(E, t)
    n = 0
    for s in E.call(st, 'vp_token', [p, b, e, q]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'an error only if % is not followed by two hexadecimal digits', z3.Not(ok), 'post')
        else:
            E.oblige(s, 'accepted only if every % is followed by two hexadecimal digits', ok, 'post')
            E.oblige(s, 'the token decoded, then with ~1 and ~0 replaced', out_string(E, s, q) == val, 'post')
    return n


# ------------------------------------------------------------------ resolution
res_ok = z3.Function('resolves', BV64, Str, BV64, z3.BoolSort(), z3.BoolSort())
res_val = z3.Function('resolved', BV64, Str, BV64, z3.BoolSort(), BV64)


def res_definition(E, h, s, p, strict):
    n = slen(s)
    nx = T.clip(sfind(s, E.str_lit(b'/'), simp(p + 1)), n)
    raw = ssub(s, simp(p + 1), simp(nx - (p + 1)))
    t = tok_val(raw)
    end, arr, obj = p == n, A.k_is(h, A.ARR), A.k_is(h, A.OBJ)
    skip = z3.And(z3.Not(strict), t == E.str_lit(b''))
    index = z3.And(t != E.str_lit(b''), snot(t, E.str_lit(b'0123456789'), bv(0)) == NPOS, z3.Or(slen(t) == 1, sbyte(t, bv(0)) != 0x30), T.stoul_ec(t) == 0)
    i = T.stoul_val(t)
    m = A.ofind(h, t)
    r = lambda f, x: f(x, s, nx, strict)
    step = z3.And(sbyte(s, p) == 0x2f, tok_ok(raw))
    ok = z3.If(end, z3.BoolVal(True), z3.And(step, z3.If(skip, r(res_ok, h), z3.If(arr, z3.And(index, z3.ULT(i, A.alen(h)), r(res_ok, A.elem(h, i))), z3.And(obj, z3.ULT(m, A.olen(h)), r(res_ok, A.mval(h, m)))))))
    val = z3.If(end, h, z3.If(skip, r(res_val, h), z3.If(arr, r(res_val, A.elem(h, i)), r(res_val, A.mval(h, m)))))
    return [res_ok(h, s, p, strict) == ok, res_val(h, s, p, strict) == val]


def handle(E, s, p):
    return E.load(s, E.padd(p, E.adapter_template['h']), E.INT(64))


def resolver(E, deep):
    """contract of the recursive function, used for calls from more than `deep` activations of it"""
    name = 'valijson::internal::json_pointer::resolveJsonPointer'

    def f(c):
        E = c.E
        if len(params(c.dem)) < 4:
            return NotImplemented
        if sum(1 for g in c.st.frames if g is not None and canon(g.fn.dem) == name and len(params(g.fn.dem)) == 4) < deep:
            return NotImplemented
        s = S.gets(E, c.st, c[1]).t
        b = T.buf_of(c.st, c[2])
        if b is None or not b.t.eq(s):
            raise Unsupported('iterator into another string')
        p = off_term(c[2].off)
        strict = to_b(E, c[3])
        h = handle(E, c.st, c[0])
        E.oblige(c.st, 'precondition of resolveJsonPointer: the iterator is within the pointer', z3.ULE(p, slen(s)), 'pre')
        if not deep:
            E.assumed.add('contract: resolveJsonPointer with an iterator (proved as text.resolve)')

        def yes(q):
            A.new_adapter(E, q.st, q.sret, res_val(h, s, p, strict))
            return UNDEF

        def no(q):
            raise Throw('_ZTISt13runtime_error')
        return c.split(res_ok(h, s, p, strict), yes, no)
    E.handlers[name] = f


def resolve_(E, fn, strict):
    st = State()
    A.make_template(E, st)
    h = z3.Const('value', BV64)
    node = E.call1(st, 'vp_target', [h])
    p, s0 = string(st, 'pointer')
    q = Ptr(st.new(E.adapter_template['size'], 'mem', name='result').id, 0)
    n = 0
    if strict is None:
        resolver(E, 1)
        at, strict = z3.Const('at', BV64), z3.Const('preserveEmptyTokens', z3.BoolSort())
        st.assume(z3.ULE(at, slen(s0)))
        st.assume(*res_definition(E, h, s0, at, strict))
        fins = E.call(st, fn, [node, p, at, strict, q])
    else:
        resolver(E, 0)
        at, strict = bv(0), z3.BoolVal(strict)
        fins = E.call(st, fn, [node, p, q])
    for s in fins:
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'an error only if the pointer does not resolve', z3.Not(res_ok(h, s0, at, strict)), 'post')
        else:
            E.oblige(s, 'accepted only if the pointer resolves', res_ok(h, s0, at, strict), 'post')
            E.oblige(s, 'the value the pointer leads to', handle(E, s, q) == res_val(h, s0, at, strict), 'post')
    return n


@spec
def resolve(E):
    E.fname = 'json_pointer::resolveJsonPointer(node, pointer, iterator, preserveEmptyTokens)'
    return resolve_(E, 'vp_resolve', None)


@spec
def resolveUri(E):
    E.fname = 'json_pointer::resolveJsonPointer(node, pointer)'
    return resolve_(E, 'vp_resolve_uri', False)


@spec
def resolveStrict(E):
    E.fname = 'json_pointer::resolveJsonPointerStrict'
    return resolve_(E, 'vp_resolve_strict', True)


# ------------------------------------------------------------------ relative URIs
is_urn = z3.Function('is_urn', Str, z3.BoolSort())


def c_urn(c):
    c.E.assumed.add('contract: isUrn is a function of its argument (regular expression; bounded check only)')
    return is_urn(S.gets(c.E, c.st, c[0]).t)


def strings_walked(st):
    return list({a.t.get_id(): a.t for o in st.mem.values() if o.kind == 'mem' and o.info and o.info[0] == 'buf' and len(o.info) > 3 for a in [o.info[3]] if a.lit is None}.values())


def cut(E, s, ch):
    """s up to the first ch"""
    p = sfind(s, E.str_lit(ch), bv(0))
    return z3.If(p == NPOS, s, ssub(s, bv(0), p))


@spec
def relative(E):
    E.handlers['valijson::internal::uri::isUrn'] = c_urn
    st = State()
    ps, scope = string(st, 'scope')
    pu, uri = string(st, 'uri')
    q = Ptr(st.new(32, 'mem', name='result').id, 0)
    L = E.str_lit
    empty, dot, dots, slash = L(b''), L(b'.'), L(b'..'), L(b'/')
    count = lambda v: T.nstrs(v).n
    at = lambda v, i: T.nstrs(v).leaf(0, Str, simp(i))
    absolute = lambda m: z3.And(m != empty, sbyte(m, bv(0)) == 0x2f)
    ch = lambda m, i: sbyte(m, i)

    def put(m, v, g):
        """the segment g follows the segments v of a path like m"""
        back = z3.And(count(v) != 0, at(v, count(v) - 1) != dots)
        return z3.If(g == dots, z3.If(back, T.strs_pop(v), z3.If(absolute(m), v, S.strs_push(v, g))),
                     z3.If(z3.And(g != empty, g != dot), S.strs_push(v, g), v))
    walked = lambda E, entry, h, depth: [(s,) for s in strings_walked(entry)]
    seg = Fold(E, 'segment', [Str], Str, lambda m: empty, lambda m, i, a: z3.If(ch(m, i) == 0x2f, empty, cat(a, schar(ch(m, i)))), kind='val')
    segs = Fold(E, 'segments', [Str], S.StrsS, lambda m: S.strs_nil, lambda m, i, a: z3.If(ch(m, i) == 0x2f, put(m, a, seg(m, i)), a), kind='val')
    E.fold_list += [(seg, walked), (segs, walked)]
    join = Fold(E, 'joined', [S.StrsS, Str], Str, lambda v, b: b, lambda v, b, i, a: z3.If(i == 0, cat(a, at(v, i)), cat(cat(a, slash), at(v, i))), kind='val')
    vecs = lambda E, entry, h, depth: [(a.t, b) for o in entry.mem.values() for a in getattr(o, 'abs', {}).values() if isinstance(a, AStrs) for b in (empty, slash)]
    AStrs = S.AStrs
    E.fold_list.append((join, vecs))
    E.len_fns = [lambda E, entry: [slen(s) for s in strings_walked(entry)] + [count(a.t) for o in entry.mem.values() for a in getattr(o, 'abs', {}).values() if isinstance(a, AStrs)]]
    some = z3.Const('any_strings', S.StrsS)
    E.watch(count(some).decl(), lambda v: [z3.ULT(count(v), bv(A.MAXN))])

    # the parts
    mark = lambda s, x, k=bv(0): sfind(s, L(x), k)
    scheme = mark(scope, b'://')
    has = scheme != NPOS
    n = slen(scope)
    end = mark(scope, b'/', simp(scheme + 3))
    auth = z3.If(has, ssub(scope, bv(0), T.clip(end, n)), empty)
    k = T.clip(end, n)
    path = z3.If(has, z3.If(z3.ULT(k, n), ssub(scope, k, simp(n - k)), slash), scope)
    base = cut(E, cut(E, path, b'#'), b'?')
    f, g = mark(uri, b'#'), mark(uri, b'?')
    sp = z3.If(z3.ULT(g, f), g, f)
    rel = z3.If(sp == NPOS, uri, ssub(uri, bv(0), sp))
    suffix = z3.If(sp == NPOS, empty, ssub(uri, sp, simp(slen(uri) - sp)))
    last = srfind(base, slash, NPOS)
    merged = z3.If(absolute(rel), rel, z3.If(last == NPOS, rel, cat(ssub(base, bv(0), simp(last + 1)), rel)))
    m, v, J = z3.Const('merged', Str), z3.Const('all_segments', S.StrsS), z3.Const('normalised', Str)
    v_is = put(m, segs(m, slen(m)), seg(m, slen(m)))
    J_is = join(v, z3.If(absolute(m), slash, empty), count(v))
    trail = z3.And(m != empty, sbyte(m, simp(slen(m) - 1)) == 0x2f, z3.Or(J == empty, sbyte(J, simp(slen(J) - 1)) != 0x2f))
    E.fname = 'uri::resolveRelativeUri'
    E.merge_fns = lambda f: canon(f.dem).startswith('valijson::internal::uri::')
    whole = z3.Or(mark(uri, b'://') != NPOS, is_urn(uri))
    lone = z3.Or(sbyte(uri, bv(0)) == 0x23, sbyte(uri, bv(0)) == 0x3f)
    a_, s_ = z3.Const('authority', Str), z3.Const('suffix', Str)
    b_ = z3.Const('base', Str)
    names = [m == merged, a_ == auth, s_ == suffix, b_ == base]
    c3 = lambda x, y, z: cat(cat(x, y), z)
    no = 0
    for s in E.call(st, 'vp_relative', [ps, pu, q]):
        no += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', z3.BoolVal(False), 'post')
            continue
        r = out_string(E, s, q)
        s.assume(*names)
        s.assume(v == v_is)
        s.assume(J == J_is)
        other = z3.And(uri != empty, z3.Not(whole))
        E.oblige(s, 'an empty URI gives the base', z3.Implies(uri == empty, r == scope), 'post')
        E.oblige(s, 'an absolute URI or URN is returned unchanged', z3.Implies(z3.And(uri != empty, whole), r == uri), 'post')
        E.oblige(s, 'a lone fragment or query follows the path of the base', z3.Implies(z3.And(other, lone), r == c3(a_, b_, uri)), 'post')
        E.oblige(s, 'authority, normalised merged path, query and fragment', z3.Implies(z3.And(other, z3.Not(lone)), r == c3(a_, z3.If(trail, cat(J, slash), J), s_)), 'post')
    return no


# ------------------------------------------------------------------ contracts of the functions above
def c_decode(c):
    E = c.E
    d = S.gets(E, c.st, c[0]).t
    E.assumed.add('contract: decodePercentEncodedChar (proved as text.decode)')

    def no(q):
        raise Throw('_ZTISt13runtime_error')
    return c.split(hex_ok(d), lambda q: hex_val(d), no)


def c_token(c):
    E, st = c.E, c.st
    s = T.buf_of(st, c[0])
    if s is None or not isinstance(c[1], Ptr) or c[1].obj != c[0].obj:
        raise Unsupported('token between iterators')
    f, l = off_term(c[0].off), off_term(c[1].off)
    E.oblige(st, 'precondition of extractReferenceToken: a range within the string', z3.And(z3.ULE(f, l), z3.ULE(l, slen(s.t))), 'pre')
    E.assumed.add('contract: extractReferenceToken (proved as text.token)')
    t = ssub(s.t, simp(f), simp(l - f))

    def yes(q):
        E.aset(q.st, q.sret, AStr(tok_val(t)))
        return UNDEF

    def no(q):
        raise Throw('_ZTISt13runtime_error')
    return c.split(tok_ok(t), yes, no)


def run(module, name):
    E = new_engine(module)
    T.setup(E)
    E.use_strs = True
    E.handlers['valijson::internal::json_pointer::decodePercentEncodedChar'] = c_decode
    E.handlers['valijson::internal::json_pointer::extractReferenceToken'] = c_token
    E.fname = name
    E.nfinals = SPECS[name](E)
    return E
