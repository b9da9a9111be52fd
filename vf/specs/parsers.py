"""Specifications of the functions of the schema parser that turn a keyword into a constraint (for an arbitrary JSON value)."""
import itertools
from .base import *
from .. import lib_parser as LP
from .adapters import cast_int, cast_bool

SPECS = {}
DRAFT3, DRAFT4, DRAFT7 = 0, 1, 2


def spec(name, prop='P20'):
    def d(f):
        SPECS[name] = (prop, f)
        return f
    return d


def parser(E):
    """a parser for an arbitrary draft"""
    st = State()
    A.make_template(E, st)
    p = E.call1(st, 'vp_parser', [])
    at = E.call1(State(), 'vp_version_at', []).as_long()
    v = z3.Const('draft', z3.BitVecSort(32))
    st.assume(z3.ULE(v, 2))
    E.store(st, E.padd(p, at), v, E.INT(32))
    return st, p, v


def node(E, st, name='keyword'):
    h = z3.Const(name, BV64)
    return E.call1(st, 'vp_target', [h]), h


def finals(E, st, fn, args, good, ok, post):
    """good: values that have to be accepted; ok: values that may be; post(state): what the constraint must be then"""
    n = 0
    for s in E.call(st, fn, args):
        n += 1
        if s.status == 'throw':
            mention(E, s)
            E.oblige(s, 'a well-formed keyword is not rejected', z3.Not(good), 'reject')
        else:
            E.oblige(s, 'a malformed keyword is not accepted', ok, 'reject')
            post(s)
    return n


def subterms(fs, d):
    """applications of d in formulas"""
    seen, out, work = set(), {}, list(fs)
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if decl_is(t, d):
            out[t.get_id()] = t
        work.extend(t.children())
    return list(out.values())


def mention(E, s):
    """the folds are unfolded at the elements this path has looked at"""
    for F, d in E.mention:
        for t in subterms(s.pc, d):
            s.assume(z3.Const('seen_%d' % next(SEEN), z3.BoolSort()) == F(t.arg(1)))


SEEN = itertools.count()


def count(kind):
    def f(E):
        st, p, v = parser(E)
        t, h = node(E, st)
        val = cast_int(E, h)
        return finals(E, st, 'vp_make_' + kind, [p, t], z3.And(K(h, A.INT_), A.vint(h) >= 0), z3.And(maybe_integer(h), val >= 0),
                      lambda s: E.oblige(s, 'the count is the one written', E.call1(s.clone(), 'vp_' + kind, [s.ret]) == val, 'post'))
    SPECS['make' + kind] = ('P20', f)


for k in ('MaxItems', 'MaxLength', 'MaxProperties', 'MinItems', 'MinLength', 'MinProperties'):
    count(k)


def limit(kind, low):
    get_ = lambda E, s, f: E.call1(s.clone(), f, [s.ret])

    def plain(E):
        st, p, v = parser(E)
        t, h = node(E, st)
        o, x = node(E, st, 'exclusive')
        n = 0
        for arg, good, ok, ex in ((NULL, z3.BoolVal(True), z3.BoolVal(True), z3.BoolVal(False)), (o, K(x, A.BOOL), maybe_bool(E, x), cast_bool(E, x))):
            def post(s):
                E.oblige(s, 'the limit is the one written', z3.fpEQ(get_(E, s, 'vp_' + low), as_double(h)), 'post')
                E.oblige(s, 'the limit is exclusive when that is written', to_b(E, get_(E, s, 'vp_exclusive' + kind)) == ex, 'post')
            n += finals(E, st.clone(), 'vp_make_' + kind, [p, t, arg], z3.And(K(h, A.INT_, A.DBL), good), z3.And(maybe_double(h), ok), post)
        return n

    def exclusive(E):
        st, p, v = parser(E)
        t, h = node(E, st)

        def post(s):
            E.oblige(s, 'the limit is the one written', z3.fpEQ(get_(E, s, 'vp_' + low), as_double(h)), 'post')
            E.oblige(s, 'the limit is exclusive', to_b(E, get_(E, s, 'vp_exclusive' + kind)), 'post')
        return finals(E, st, 'vp_make_%sExclusive' % kind, [p, t], K(h, A.INT_, A.DBL), maybe_double(h), post)
    SPECS['make' + kind] = ('P20', plain)
    SPECS['make%sExclusive' % kind] = ('P20', exclusive)


limit('Maximum', 'maximum')
limit('Minimum', 'minimum')


@spec('makeMultipleOfInt')
def multiple_int(E):
    st, p, v = parser(E)
    t, h = node(E, st)
    val = cast_int(E, h)
    return finals(E, st, 'vp_make_MultipleOfInt', [p, t], z3.And(K(h, A.INT_), A.vint(h) > 0), z3.And(maybe_integer(h), val > 0),
                  lambda s: E.oblige(s, 'the divisor is the one written', E.call1(s.clone(), 'vp_multipleOfInt', [s.ret]) == val, 'post'))


@spec('makeMultipleOfDouble')
def multiple_double(E):
    st, p, v = parser(E)
    t, h = node(E, st)
    val = as_double(h)
    pos = z3.fpGT(val, z3.FPVal(0.0, F64))
    return finals(E, st, 'vp_make_MultipleOfDouble', [p, t], z3.And(K(h, A.INT_, A.DBL), pos), z3.And(maybe_double(h), pos),
                  lambda s: E.oblige(s, 'the divisor is the one written', z3.fpEQ(E.call1(s.clone(), 'vp_multipleOfDouble', [s.ret]), val), 'post'))


def text_of(E, s, f):
    s = s.clone()
    o = s.new(32, 'mem', name='text')
    E.call1(s, f, [s.ret, Ptr(o.id, 0)])
    return S.gets(E, s, Ptr(o.id, 0)).t


def text(kind, f):
    def g(E):
        st, p, v = parser(E)
        t, h = node(E, st)
        good = z3.And(K(h, A.STR), A.vstr(h) != E.str_lit(b''))
        return finals(E, st, 'vp_make_' + kind, [p, t], good, K(h, A.STR),
                      lambda s: E.oblige(s, 'the text is the one written', text_of(E, s, f) == A.vstr(h), 'post'))
    SPECS['make' + kind] = ('P20', g)


text('Format', 'vp_format')
text('Pattern', 'vp_pattern')


@spec('makeUniqueItems')
def unique(E):
    st, p, v = parser(E)
    t, h = node(E, st)
    return finals(E, st, 'vp_make_UniqueItems', [p, t], K(h, A.BOOL), maybe_bool(E, h),
                  lambda s: E.oblige(s, 'a constraint exactly when the value is true', to_b(E, s.ret) == cast_bool(E, h), 'post'))


# ------------------------------------------------------------------ keywords with sub-schemas
def schema_env(E, st):
    """arguments of a function that makes sub-schemas -> (list, duties)"""
    x = Ctx()
    x.root, x.rooth = node(E, st, 'root')
    x.scope, x.has = z3.Const('scope', Str), z3.Const('has_scope', z3.BoolSort())
    so = st.new(40, 'mem', name='scope')
    so.abs[0] = AStr(x.scope)
    so.cells[32] = (1, z3.If(x.has, bv(1, 8), bv(0, 8)))
    x.path = z3.Const('path', Str)
    po = st.new(32, 'mem', name='path')
    po.abs[0] = AStr(x.path)
    ext = lambda n: Opq(z3.Const(n, BV64), 0, n)
    x.schema = ext('Schema')
    x.args = [x.schema, x.root, Ptr(so.id, 0), Ptr(po.id, 0), ext('fetchDoc'), ext('docCache'), ext('registry')]
    for a in x.args:
        if isinstance(a, Opq):
            st.assume(a.t != 0)
    x.places = []               # (condition on the node, path it has to be compiled under)
    return x


def strcat(E, *parts):
    r = None
    for q in parts:
        q = E.str_lit(q) if isinstance(q, (str, bytes)) else q
        r = q if r is None else S.cat(r, q)
    return r


def duties(E, x, place):
    """every sub-schema is compiled under the pointer that leads to it, in the same document and scope"""
    def on_schema(c, h):
        st = c.st
        E.oblige(st, 'a sub-schema is compiled relative to the same document', A.adapter_handle(E, st, c[2]) == x.rooth, 'where')
        sc = c[4]
        flag = E.load(st, E.padd(sc, 32), E.INT(8))
        flag = flag if isinstance(flag, z3.BoolRef) else flag != 0
        try:
            same = z3.Implies(flag, S.gets(E, st, sc).t == x.scope)
        except Unsupported:         # there is no string there
            same = z3.Not(flag)
        E.oblige(st, 'a sub-schema is compiled in the scope of its parent', z3.And(flag == x.has, same), 'where')
        got = S.gets(E, st, c[5]).t
        alts = []
        for b in branches(h):
            alts.append(z3.And(h == b, place(got, b)))
        E.oblige(st, 'a sub-schema is known under the pointer that leads to it', z3.Or(alts), 'where')
    E.on_schema = on_schema


def at_index(E, x, base=None):
    """place of the element of an array"""
    base = x.path if base is None else base

    def place(got, b):
        if decl_is(b, A.elem):
            return z3.Or([got == strcat(E, S.cat(base, E.str_lit(b'/')), f(b.arg(1))) for f in (S.tostr_signed, S.tostr)])
        return z3.BoolVal(False)
    return place


def list_fold(E, name, a, item=None):
    """the list with an entry for each element of array a, in order"""
    F = Fold(E, name, [], LP.PtrsS, lambda: LP.ptrs_nil, lambda i, acc: LP.ptrs_push(acc, (LP.sub_of if item is None else item)(A.elem(a, i))), kind='val')
    E.fold_list.append((F, ()))
    return F


def list_at(E, s, at=None):
    """the only list in the constraint"""
    o = s.obj(s.ret.obj)
    got = [a for k, a in sorted(o.abs.items()) if isinstance(a, LP.AList)]
    if len(got) != 1:
        raise Unsupported('layout of the constraint')
    return got[0].t


def schemas_list(kind, items_ok, extra=None):
    def f(E):
        st, p, v = parser(E)
        t, h = node(E, st)
        x = schema_env(E, st)
        a = z3.If(K(h, A.ARR), h, EMPTY_ARR)
        E.len_terms += [A.alen(h), A.alen(EMPTY_ARR)]
        sub_good, sub_may = items_ok
        good = all_fold(E, 'well_formed_items', lambda i: z3.And(sub_good(E, v, A.elem(a, i)), LP.parses(A.elem(a, i))))
        may = all_fold(E, 'permitted_items', lambda i: z3.And(sub_may(E, v, A.elem(a, i)), LP.parses(A.elem(a, i))))
        L = list_fold(E, 'compiled_items', a)
        E.mention = [(good, A.elem)]
        duties(E, x, at_index(E, x))
        n = A.alen(a)
        if kind == 'Extends':
            duties(E, x, lambda got, b: z3.Or(z3.And(K(h, A.OBJ), b == h, got == x.path), at_index(E, x)(got, b)))
            one = LP.ptrs_push(LP.ptrs_nil, LP.sub_of(h))
            weak = z3.And(K(h, A.OBJ), A.olen(h) == 0)         # an empty object can be read as a list or as a schema
            G = z3.And(LP.parses(h), z3.Or(z3.And(K(h, A.ARR), good(n)), K(h, A.OBJ)))
            G = z3.Or(z3.And(K(h, A.ARR), good(n)), z3.And(K(h, A.OBJ), LP.parses(h)))
            M = z3.Or(z3.And(K(h, A.ARR), may(n)), z3.And(K(h, A.OBJ), z3.Or(weak, LP.parses(h))))
            post = lambda s: E.oblige(s, 'one sub-schema for each schema listed', z3.Or(
                z3.And(K(h, A.ARR), list_at(E, s) == L(n)), z3.And(K(h, A.OBJ), list_at(E, s) == one), z3.And(weak, list_at(E, s) == LP.ptrs_nil)), 'post')
            return finals(E, st, 'vp_make_Extends', [p, t] + x.args, G, M, post)
        return finals(E, st, 'vp_make_' + kind, [p, t] + x.args, z3.And(K(h, A.ARR), good(n)), z3.And(maybe_array(h), may(n)),
                      lambda s: E.oblige(s, 'one sub-schema for each schema listed', list_at(E, s) == L(n), 'post'))
    SPECS['make' + kind] = ('P20', f)


is_schema = lambda E, v, e: z3.Or(K(e, A.OBJ), z3.And(v == DRAFT7, K(e, A.BOOL)))
may_schema = lambda E, v, e: z3.Or(maybe_object(e), z3.And(v == DRAFT7, maybe_bool(E, e)))
schemas_list('AllOf', (is_schema, may_schema))
schemas_list('AnyOf', (is_schema, may_schema))
schemas_list('OneOf', (is_schema, lambda E, v, e: z3.BoolVal(True)))      # what a schema is, is decided when it is compiled
schemas_list('Extends', (lambda E, v, e: K(e, A.OBJ), lambda E, v, e: maybe_object(e)))


def one_schema(kind, getter, may, weak=None):
    """a keyword whose value is a schema. weak: values read as the empty schema"""
    def f(E):
        st, p, v = parser(E)
        t, h = node(E, st)
        x = schema_env(E, st)
        duties(E, x, lambda got, b: z3.And(b == h, got == x.path))
        w = weak(h) if weak else z3.BoolVal(False)

        def post(s):
            got = A.ptr_term(E, E.call1(s.clone(), getter, [s.ret]))
            E.oblige(s, 'the sub-schema is the one written', z3.Or(got == LP.sub_of(h), z3.And(w, got == LP.EMPTY_SCHEMA)), 'post')
        return finals(E, st, 'vp_make_' + kind, [p, t] + x.args, z3.And(is_schema(E, v, h), LP.parses(h)),
                      z3.And(may(E, v, h), z3.Or(LP.parses(h), w)), post)
    SPECS['make' + kind] = ('P20', f)


one_schema('Not', 'vp_not', may_schema)
one_schema('Contains', 'vp_contains', may_schema, empty_arr)
one_schema('SingularItems', 'vp_items', may_schema, empty_arr)
one_schema('PropertyNames', 'vp_propertyNames', lambda E, v, h: z3.BoolVal(True))


@spec('makeConst')
def const(E):
    st, p, v = parser(E)
    t, h = node(E, st)
    return finals(E, st, 'vp_make_Const', [p, t], z3.BoolVal(True), z3.BoolVal(True),
                  lambda s: E.oblige(s, 'the value is the one written', A.ptr_term(E, E.call1(s.clone(), 'vp_const', [s.ret])) == A.frozen_of(h), 'post'))


@spec('makeEnum')
def enum(E):
    st, p, v = parser(E)
    t, h = node(E, st)
    E.len_terms += [A.alen(h)]
    L = list_fold(E, 'values', h, A.frozen_of)
    return finals(E, st, 'vp_make_Enum', [p, t], K(h, A.ARR), K(h, A.ARR),
                  lambda s: E.oblige(s, 'the values are those written', list_at(E, s) == L(A.alen(h)), 'post'))


def set_fold(E, name, key, sort=Str):
    """the set with key(i) for every i (a key of None adds nothing)"""
    def step(i, acc):
        c, k = key(i)
        return z3.If(c, z3.Store(acc, k, z3.BoolVal(True)), acc) if c is not True else z3.Store(acc, k, z3.BoolVal(True))
    F = Fold(E, name, [], z3.ArraySort(sort, z3.BoolSort()), lambda: z3.K(sort, z3.BoolVal(False)), step, kind='val')
    E.fold_list.append((F, ()))
    return F


def set_at(E, s):
    o = s.obj(s.ret.obj)
    got = [a for k, a in sorted(o.abs.items()) if isinstance(a, S.ASet)]
    if len(got) != 1:
        raise Unsupported('layout of the constraint')
    return got[0].arr


@spec('makeRequired')
def required(E):
    E.mutable_sets = True
    st, p, v = parser(E)
    t, h = node(E, st)
    E.len_terms += [A.alen(h)]
    good = all_fold(E, 'all_names', lambda i: K(A.elem(h, i), A.STR))
    N = set_fold(E, 'names', lambda i: (True, A.vstr(A.elem(h, i))))
    E.mention = [(good, A.elem)]
    ok = z3.And(K(h, A.ARR), good(A.alen(h)))
    return finals(E, st, 'vp_make_Required', [p, t], ok, ok, lambda s: E.oblige(s, 'the names are those written', set_at(E, s) == N(A.alen(h)), 'post'))


@spec('makeRequiredForSelf')
def required_self(E):
    E.mutable_sets = True
    st, p, v = parser(E)
    t, h = node(E, st)
    no = st.new(32, 'mem', name='own name')
    name = z3.Const('own_name', Str)
    no.abs[0] = AStr(name)

    def post(s):
        if isinstance(s.ret, Ptr):
            E.oblige(s, 'a constraint only when the value is true', cast_bool(E, h), 'post')
            E.oblige(s, 'the name is that of the property', set_at(E, s) == z3.Store(z3.K(Str, z3.BoolVal(False)), name, z3.BoolVal(True)), 'post')
        else:
            E.oblige(s, 'no constraint only when the value is false', z3.And(A.ptr_term(E, s.ret) == 0, z3.Not(cast_bool(E, h))), 'post')
    return finals(E, st, 'vp_make_RequiredForSelf', [p, t, Ptr(no.id, 0)], K(h, A.BOOL), maybe_bool(E, h), post)


def got_schema(E, s, f):
    return A.ptr_term(E, E.call1(s.clone(), f, [s.ret]))


@spec('makeConditional')
def conditional(E):
    st, p, v = parser(E)
    i, ih = node(E, st, 'if')
    n = 0
    for then in (False, True):
        for els in (False, True):
            q = st.clone()
            t, th = node(E, q, 'then')
            e, eh = node(E, q, 'else')
            x = schema_env(E, q)
            duties(E, x, lambda got, b: z3.Or([z3.And(b == k, got == strcat(E, x.path, w)) for k, w in ((ih, '/if'), (th, '/then'), (eh, '/else'))]))
            good = z3.And([LP.parses(k) for k, w in ((ih, True), (th, then), (eh, els)) if w])

            def post(s):
                E.oblige(s, 'the if schema is the one written', got_schema(E, s, 'vp_if') == LP.sub_of(ih), 'post')
                E.oblige(s, 'the then schema is the one written', got_schema(E, s, 'vp_then') == (LP.sub_of(th) if then else 0), 'post')
                E.oblige(s, 'the else schema is the one written', got_schema(E, s, 'vp_else') == (LP.sub_of(eh) if els else 0), 'post')
            n += finals(E, q, 'vp_make_Conditional', [p, i, t if then else NULL, e if els else NULL] + x.args, good, good, post)
    return n


def text_arg(st, name):
    o = st.new(32, 'mem', name=name)
    t = z3.Const(name, Str)
    o.abs[0] = AStr(t)
    return Ptr(o.id, 0), t


def additional(E, v, ah):
    """value of additionalItems / additionalProperties -> (has to be accepted, may be accepted, schema it means; 0 for none)"""
    good = z3.Or(K(ah, A.BOOL), z3.And(K(ah, A.OBJ), LP.parses(ah)))
    may = z3.Or(maybe_bool(E, ah), z3.And(maybe_object(ah), LP.parses(ah)))
    return good, may, z3.If(maybe_bool(E, ah), z3.If(cast_bool(E, ah), LP.EMPTY_SCHEMA, bv(0)), LP.sub_of(ah))


@spec('makeLinearItems')
def linear(E):
    st, p, v = parser(E)
    n = 0
    i, ih = node(E, st, 'items')
    a, ah = node(E, st, 'additionalItems')
    x = schema_env(E, st)
    p2, path2 = text_arg(st, 'additionalItems_path')
    E.len_terms += [A.alen(ih)]
    all_good = all_fold(E, 'well_formed_items', lambda k: LP.parses(A.elem(ih, k)))
    L = list_fold(E, 'compiled_items', ih)
    E.mention = [(all_good, A.elem)]
    duties(E, x, lambda got, b: z3.Or(z3.And(b == ah, got == path2), at_index(E, x)(got, b)))
    g, m, sch = additional(E, v, ah)
    for items in (False, True):
        for add in (False, True):
            q = st.clone()
            good = z3.And(g if add else True, z3.And(K(ih, A.ARR), all_good(A.alen(ih))) if items else True)
            may = z3.And(m if add else True, z3.And(K(ih, A.ARR), all_good(A.alen(ih))) if items else True)

            def post(s):
                E.oblige(s, 'one sub-schema for each position', list_at(E, s) == (L(A.alen(ih)) if items else LP.ptrs_nil), 'post')
                E.oblige(s, 'further items are governed by additionalItems', got_schema(E, s, 'vp_additionalItems') == (sch if add else LP.EMPTY_SCHEMA), 'post')
            n += finals(E, q, 'vp_make_LinearItems', [p, i if items else NULL, a if add else NULL, p2] + x.args, good, may, post)
    return n


def map_fold(E, name, h):
    """member names of the object to the schemas of their values (the first member of a name counts)"""
    def step(i, acc):
        k = A.mname(h, i)
        return z3.If(z3.Select(acc, k) != 0, acc, z3.Store(acc, k, LP.sub_of(A.mval(h, i))))
    F = Fold(E, name, [], z3.ArraySort(Str, BV64), lambda: LP.NO_MAP, step, kind='val')
    E.fold_list.append((F, ()))
    return F


def maps_at(E, s):
    o = s.obj(s.ret.obj)
    return [a.arr for k, a in sorted(o.abs.items()) if isinstance(a, LP.AMap)]


def at_name(E, base, h):
    """place of a member of the object h"""
    def place(got, b):
        if decl_is(b, A.mval):
            return z3.And(b.arg(0) == h, got == S.cat(S.cat(base, E.str_lit(b'/')), LP.esc(A.mname(b.arg(0), b.arg(1)))))
        return z3.BoolVal(False)
    return place


def properties(which):
    def f(E):
        st, p, v = parser(E)
        n = 0
        i, ih = node(E, st, 'properties')
        j, jh = node(E, st, 'patternProperties')
        a, ah = node(E, st, 'additionalProperties')
        x = schema_env(E, st)
        p2, path2 = text_arg(st, 'patternProperties_path')
        p3, path3 = text_arg(st, 'additionalProperties_path')
        parent = Opq(z3.Const('parent', BV64), 0, 'Subschema')
        E.len_terms += [A.olen(ih), A.olen(jh)]
        gi = all_fold(E, 'well_formed_properties', lambda k: LP.parses(A.mval(ih, k))) if which & 1 else None
        gj = all_fold(E, 'well_formed_patterns', lambda k: LP.parses(A.mval(jh, k))) if which & 2 else None
        Mi = map_fold(E, 'compiled_properties', ih) if which & 1 else None
        Mj = map_fold(E, 'compiled_patterns', jh) if which & 2 else None
        E.mention = [(f, A.mval) for f in (gi, gj) if f]
        duties(E, x, lambda got, b: z3.Or(z3.And(b == ah, got == path3), at_name(E, x.path, ih)(got, b), at_name(E, path2, jh)(got, b)))
        g, m, sch = additional(E, v, ah)
        for add in (False, True):
            q = st.clone()
            both = [K(h, A.OBJ) for h, F in ((ih, gi), (jh, gj)) if F] + [F(A.olen(h)) for h, F in ((ih, gi), (jh, gj)) if F]
            good = z3.And([g if add else z3.BoolVal(True)] + both)
            may = z3.And([m if add else z3.BoolVal(True)] + both)

            def post(s):
                P, Q = maps_at(E, s)
                E.oblige(s, 'properties maps each name to its schema', P == (Mi(A.olen(ih)) if Mi else LP.NO_MAP), 'post')
                E.oblige(s, 'patternProperties maps each pattern to its schema', Q == (Mj(A.olen(jh)) if Mj else LP.NO_MAP), 'post')
                E.oblige(s, 'further members are governed by additionalProperties', got_schema(E, s, 'vp_additionalProperties') == (sch if add else LP.EMPTY_SCHEMA), 'post')
            n += finals(E, q, 'vp_make_Properties', [p, i if Mi else NULL, j if Mj else NULL, a if add else NULL, p2, p3, parent] + x.args, good, may, post)
        return n
    SPECS['makeProperties%d' % which] = ('P20', f)


for w in range(4):
    properties(w)


TYPE_NAMES = ['any', 'array', 'boolean', 'integer', 'null', 'number', 'object', 'string']


@spec('makeType')
def type_(E):
    E.mutable_sets = True
    st, p, v = parser(E)
    t, h = node(E, st)
    x = schema_env(E, st)
    E.len_terms += [A.alen(h)]
    lits = [E.str_lit(n.encode()) for n in TYPE_NAMES]
    known = lambda e: z3.And(K(e, A.STR), z3.Or([z3.And(A.vstr(e) == l, True if n else v != DRAFT4) for n, l in enumerate(lits)]))

    def code(e):
        r = bv(7, 32)
        for n in range(6, -1, -1):
            r = z3.If(A.vstr(e) == lits[n], bv(n, 32), r)
        return r
    schema = lambda e: z3.And(v == DRAFT3, K(e, A.OBJ))
    ok = lambda e: z3.If(schema(e), LP.parses(e), known(e))
    one = lambda i: A.elem(h, i)
    good = all_fold(E, 'well_formed_types', lambda i: ok(one(i)))
    N = set_fold(E, 'named_types', lambda i: (z3.Not(schema(one(i))), code(one(i))), z3.BitVecSort(32))
    L = Fold(E, 'schema_types', [], LP.PtrsS, lambda: LP.ptrs_nil, lambda i, acc: z3.If(schema(one(i)), LP.ptrs_push(acc, LP.sub_of(one(i))), acc), kind='val')
    E.fold_list.append((L, ()))
    E.mention = [(good, A.elem)]
    duties(E, x, lambda got, b: z3.Or(z3.And(b == h, got == x.path), at_index(E, x)(got, b)))
    n = A.alen(h)
    weak = z3.And(K(h, A.OBJ), A.olen(h) == 0)          # an empty object read as an empty list
    G = z3.Or(z3.And(K(h, A.ARR), n > 0, good(n)), z3.And(z3.Not(K(h, A.ARR)), ok(h)))       # an empty list is malformed
    none = z3.K(z3.BitVecSort(32), z3.BoolVal(False))

    def post(s):
        E.oblige(s, 'the named types are those written', set_at(E, s) == z3.If(K(h, A.ARR), N(n), z3.If(schema(h), none, z3.Store(none, code(h), z3.BoolVal(True)))), 'post')
        E.oblige(s, 'the schema types are those written', list_at(E, s) == z3.If(K(h, A.ARR), L(n), z3.If(schema(h), LP.ptrs_push(LP.ptrs_nil, LP.sub_of(h)), LP.ptrs_nil)), 'post')
    return finals(E, st, 'vp_make_Type', [p, t] + x.args, G, G, post)


def populate(draft):
    D = {'3': DRAFT3, '4': DRAFT4, '7': DRAFT7}[draft]

    def f(E):
        st = State()
        A.make_template(E, st)
        p = E.call1(st, 'vp_parser', [])
        at = E.call1(State(), 'vp_version_at', []).as_long()
        E.store(st, E.padd(p, at), bv(D, 32), E.INT(32))
        t, h = node(E, st, 'schema')
        x = schema_env(E, st)
        E.pop = x
        x.sub = Opq(z3.Const('subschema', BV64), 0, 'Subschema')
        st.assume(x.sub.t != 0)
        par = Opq(z3.Const('parent', BV64), 0, 'Subschema')
        po, x.ownt = text_arg(st, 'own_name')
        E.cast_bool = cast_bool
        for k in LP.KEYWORDS:
            st.ghost[('count', k)] = bv(0)
            st.ghost[('owner', k)] = bv(0)
            for i in range(3):
                st.ghost[('node', k, i)] = LP.ABSENT
                if k in LP.WITH_SCHEMAS:
                    st.ghost[('path', k, i)] = E.str_lit(b'')
        for k in LP.SETTERS:
            st.ghost[('set', k)] = bv(0)
            st.ghost[('text', k)] = E.str_lit(b'')
        st.ghost['callee failed'] = bv(0)
        st.ghost['registered'] = bv(0)
        st.ghost['registered key'] = E.str_lit(b'')
        st.ghost['registered schema'] = bv(0)
        key = lambda k: E.str_lit(k.encode())
        at_ = lambda k: A.ofind(h, key(k))
        has = lambda k: z3.ULT(at_(k), A.olen(h))
        val = lambda k: A.mval(h, at_(k))
        opt = lambda k: z3.If(has(k), val(k), LP.ABSENT)
        obj, boolean = K(h, A.OBJ), z3.And(K(h, A.BOOL))
        idk = '$id' if D == DRAFT7 else 'id'
        with_id = z3.And(has(idk), maybe_string(val(idk)))
        idt = as_string(E, val(idk))
        new_has = z3.If(with_id, LP.resolved_has(x.has, x.scope, idt), x.has)
        new_scope = z3.If(with_id, LP.resolved(x.has, x.scope, idt), x.scope)

        def on_scope(c, flag, text):
            E.oblige(c.st, 'sub-schemas are compiled in the scope of the schema', z3.And(flag == new_has, z3.Implies(flag, text == new_scope) if text is not None else z3.Not(flag)), 'where')
        E.on_scope = on_scope
        yes, no = z3.BoolVal(True), z3.BoolVal(False)
        # kind -> (it has to be made, the nodes it is made from, the paths of these)
        both = z3.And(has('if'))
        later = D != DRAFT3
        want = {}

        def one(kind, k=None, drafts=(DRAFT3, DRAFT4, DRAFT7), cond=None, nodes=None, paths=None):
            k = k or kind[0].lower() + kind[1:]
            want[kind] = (D in drafts, has(k) if cond is None else cond, nodes or [val(k)], paths or ['/' + k])
        for k in ('Type', 'Dependencies', 'Enum', 'Format', 'MaxItems', 'MaxLength', 'MinItems', 'MinLength', 'Pattern'):
            one(k)
        for k in ('AllOf', 'AnyOf', 'Not', 'OneOf', 'MaxProperties', 'MinProperties'):
            one(k, drafts=(DRAFT4, DRAFT7))
        for k in ('Const', 'Contains', 'PropertyNames'):
            one(k, drafts=(DRAFT7,))
        one('Extends', drafts=(DRAFT3,))
        one('SingularItems', 'items', cond=z3.And(has('items'), z3.Not(K(val('items'), A.ARR))))
        one('LinearItems', 'items', cond=z3.And(has('items'), K(val('items'), A.ARR)), nodes=[val('items'), opt('additionalItems')], paths=['/items', '/additionalItems'])
        one('Conditional', 'if', drafts=(DRAFT7,), nodes=[val('if'), opt('then'), opt('else')], paths=[''])
        one('Properties', cond=z3.Or(has('properties'), has('patternProperties'), has('additionalProperties')),
            nodes=[opt('properties'), opt('patternProperties'), opt('additionalProperties')], paths=['/properties', '/patternProperties', '/additionalProperties'])
        for k, e in (('Maximum', 'exclusiveMaximum'), ('Minimum', 'exclusiveMinimum')):
            one(k, nodes=[val(k.lower()), opt(e) if D != DRAFT7 else LP.ABSENT])
            one(k + 'Exclusive', e, cond=has(e) if D == DRAFT7 else no)
        mult = 'divisibleBy' if D == DRAFT3 else 'multipleOf'
        whole = maybe_integer(val(mult))
        one('MultipleOfInt', mult, cond=z3.And(has(mult), whole))
        one('MultipleOfDouble', mult, cond=z3.And(has(mult), z3.Not(whole)))
        one('Required', drafts=(DRAFT3, DRAFT4, DRAFT7), cond=has('required') if later else no)
        one('UniqueItems', cond=z3.And(has('uniqueItems'), cast_bool(E, val('uniqueItems'))))
        n = 0
        for mem in ((False, True) if D == DRAFT3 else (True,)):
            one('RequiredForSelf', 'required', cond=z3.And(has('required'), cast_bool(E, val('required'))) if D == DRAFT3 and mem else no)
            q = st.clone()
            must_fail = [z3.And(has(k), z3.Not(maybe_string(val(k)))) for k in ('title', 'description')]
            must_fail += [z3.And(has(mult), z3.Not(whole), z3.Not(maybe_double(val(mult))))]
            if D != DRAFT7:
                must_fail += [z3.And(has('exclusive' + k), z3.Not(has(k.lower()))) for k in ('Maximum', 'Minimum')]
            may_fail = [z3.And(has(k), z3.Not(K(val(k), A.STR))) for k in ('title', 'description')] + must_fail[2:]
            # keywords of other drafts, and 'required' where there is no object it could belong to
            may_fail += [has('divisibleBy')] if D != DRAFT3 else [has('multipleOf')]
            may_fail += [has('if'), has('propertyNames')] if D != DRAFT7 else []
            may_fail += [has('required')] if D == DRAFT3 and not mem else []
            is_b = z3.And(D == DRAFT7, maybe_bool(E, h))
            for s in E.call(q, 'vp_populate', [p] + x.args + [t, x.sub, par if mem else NULL, po if mem else NULL]):
                n += 1
                g = s.ghost
                if s.status == 'throw':
                    E.oblige(s, 'a well-formed schema is not rejected', z3.Or(g['callee failed'] == 1, z3.And(obj, z3.Or(may_fail)), z3.And(z3.Not(obj), z3.Not(z3.And(D == DRAFT7, boolean)))), 'reject')
                    continue
                E.oblige(s, 'only schemas are accepted', z3.Or(obj, is_b), 'reject')
                E.oblige(s, 'failures are not ignored', g['callee failed'] == 0, 'reject')
                for m in must_fail:
                    E.oblige(s, 'a malformed schema is not accepted', z3.Not(z3.And(obj, m)), 'reject')
                E.oblige(s, 'a false schema rejects everything', g[('set', 'setAlwaysInvalid')] == z3.If(z3.And(z3.Not(obj), z3.Not(cast_bool(E, h))), bv(1), bv(0)), 'post')
                for k, (has_draft, cond, nodes, paths) in want.items():
                    c = g[('count', k)]
                    if has_draft:
                        E.oblige(s, '%s: one constraint when the keyword is given, none otherwise' % k, c == z3.If(z3.And(obj, cond), bv(1), bv(0)), 'post')
                    else:
                        E.oblige(s, '%s: no constraint when the keyword is not given' % k, z3.Implies(z3.Not(z3.And(obj, cond)), c == 0), 'post')
                    nodes = nodes + [LP.ABSENT] * (3 - len(nodes))
                    E.oblige(s, '%s: made from the value of the keyword' % k, z3.Implies(c != 0, z3.And([g[('node', k, i)] == nodes[i] for i in range(3)])), 'post')
                    E.oblige(s, '%s: added to the schema' % k, z3.Implies(c != 0, g[('owner', k)] == (par.t if k == 'RequiredForSelf' else x.sub.t)), 'post')
                    if k in LP.WITH_SCHEMAS:
                        E.oblige(s, '%s: compiled under the path of the keyword' % k, z3.Implies(c != 0, z3.And([g[('path', k, i)] == (strcat(E, x.path, w) if w else x.path) for i, w in enumerate(paths)])), 'where')
                for k, a in (('Title', 'title'), ('Description', 'description')):
                    E.oblige(s, '%s: set when it is given' % a, z3.And(g[('set', 'setSubschema' + k)] == z3.If(z3.And(obj, has(a)), bv(1), bv(0)),
                             z3.Implies(g[('set', 'setSubschema' + k)] == 1, g[('text', 'setSubschema' + k)] == as_string(E, val(a)))), 'post')
                E.oblige(s, 'id: set when it is given', z3.And(g[('set', 'setSubschemaId')] == z3.If(z3.And(obj, with_id), bv(1), bv(0)),
                         z3.Implies(z3.And(obj, with_id), g[('text', 'setSubschemaId')] == idt)), 'post')
                E.oblige(s, 'a schema with an id can be found by it', z3.And(
                    g['registered'] == z3.If(z3.And(obj, with_id, new_has, x.sub.t != x.schema.t), bv(1), bv(0)),
                    z3.Implies(g['registered'] == 1, z3.And(g['registered key'] == new_scope, g['registered schema'] == x.sub.t))), 'where')
        return n
    SPECS['populateSchema' + draft] = ('P20', f)


for d in '347':
    populate(d)


def run(module, name):
    E = new_engine(module)
    E.fname = 'SchemaParser::' + name
    E.build_lists = True
    E.on_schema = None
    E.mention = []
    if name.startswith('populateSchema'):
        E.verifying = 'populateSchema'
        E.merge_fns = lambda f: canon(f.dem) == 'valijson::SchemaParser::populateSchema'
        E.merge_poison = True
        E.timeout = 30000
    E.nfinals = SPECS[name][1](E)
    return E
