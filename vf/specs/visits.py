"""Specifications of ValidationVisitor::visit(...) for every kind of constraint: which values are accepted, for an
arbitrary value, arbitrary constraint contents, both type modes, with and without error collection."""
from .base import *

SPECS = {}


def spec(kind, prop, **opts):
    def d(f):
        SPECS[kind] = (prop, f, opts)
        return f
    return d


def one_seq(x, kind='vector'):
    s = [q for q in x.seqs.values() if q.kind == kind]
    assert len(s) == 1, x.seqs
    return s[0]


def sub(x, name, optional=False):
    p = get(x, name)
    t = A.ptr_term(x.E, p)
    if not optional:
        x.st.assume(t != 0)
    return t


def V(x, s, h=None):
    return A.Valid(s, x.h if h is None else h, x.strict, x.dt)


# ------------------------------------------------------------------ P01
def subschemas(x, mk):
    sq = one_seq(x)
    nonnull(x.E, sq, 0)
    x.E.len_terms.append(sq.n)
    return sq, mk(x.E, 'accepting_subschemas', lambda i: V(x, sq.leaf(0, BV64, i)))


@spec('AllOf', 'P01')
def all_of(x):
    sq, c = subschemas(x, all_fold)
    return c(sq.n)


@spec('AnyOf', 'P01')
def any_of(x):
    sq, c = subschemas(x, any_fold)
    return c(sq.n)


@spec('OneOf', 'P01')
def one_of(x):
    sq, c = subschemas(x, cnt_fold)
    return c(sq.n) == 1


@spec('Not', 'P01')
def not_(x):
    return z3.Not(V(x, sub(x, 'vp_not')))


@spec('Conditional', 'P01')
def conditional(x):
    i, t, e = sub(x, 'vp_if'), sub(x, 'vp_then', True), sub(x, 'vp_else', True)
    return z3.If(V(x, i), z3.Or(t == 0, V(x, t)), z3.Or(e == 0, V(x, e)))


# ------------------------------------------------------------------ P02
def each_item(x, name, s, h, mk=all_fold):
    return mk(x.E, name, lambda i: V(x, s, A.elem(h, i)))


@spec('Contains', 'P02')
def contains(x):
    s = sub(x, 'vp_contains')
    E, h = x.E, x.h
    E.len_terms += [A.alen(h), A.alen(EMPTY_ARR)]
    c = each_item(x, 'matching_items', s, h, any_fold)
    return z3.Or(ignored(x, [A.ARR], maybe_array(h)), c(arr_len(h)))


@spec('SingularItems', 'P02')
def singular(x):
    s = sub(x, 'vp_items', True)
    x.E.len_terms += [A.alen(x.h), A.alen(EMPTY_ARR)]
    c = each_item(x, 'accepted_items', s, x.h)
    n = A.alen(x.h)
    return z3.Or(z3.Not(K(x.h, A.ARR)), s == 0, c(n))


@spec('LinearItems', 'P02')
def linear(x):
    sq = one_seq(x)
    E, h = x.E, x.h
    nonnull(E, sq, 0)
    add = sub(x, 'vp_additionalItems', True)
    E.len_terms += [sq.n, A.alen(h), A.alen(EMPTY_ARR)]
    it = all_fold(E, 'items_accepted_by_position', lambda i: V(x, sq.leaf(0, BV64, i), A.elem(h, i)))
    rest = all_fold(E, 'items_accepted_by_additionalItems', lambda i: z3.Or(z3.ULT(i, sq.n), V(x, add, A.elem(h, i))),
                    extra=[('all below the positional items', lambda ps, t, f: z3.Implies(z3.ULE(t, sq.n), f))])
    n = arr_len(h)
    m = z3.If(z3.ULT(n, sq.n), n, sq.n)
    return z3.Or(ignored(x, [A.ARR], maybe_array(h)),
                 z3.And(it(m), z3.If(add == 0, z3.ULE(n, sq.n), rest(n))))


# ------------------------------------------------------------------ P03
@spec('PropertyNames', 'P03')
def property_names(x):
    s = sub(x, 'vp_propertyNames')
    h = x.h
    x.E.len_terms += [A.olen(h), A.olen(EMPTY_OBJ)]
    c = all_fold(x.E, 'accepted_names', lambda i: A.ValidStr(s, A.mname(h, i), x.strict, x.dt))
    n = obj_len(h)
    return z3.Or(ignored(x, [A.OBJ], maybe_object(h)), c(n))


SetS = z3.ArraySort(Str, z3.BoolSort())


def sets_in(entry):
    return [a.arr for o in entry.mem.values() for a in o.abs.values() if isinstance(a, S.ASet)]


def which(x, fn):
    """the container of the constraint that an accessor enumerates"""
    E = x.E
    seen = []
    E.handlers['vp_seen'] = lambda c: (seen.append(c[0].t), UNDEF)[1]
    E._hcache.clear()
    E.infer += 1
    E.call(x.st.clone(), fn, [x.con])
    E.infer -= 1
    got = [q for q in x.seqs.values() if any(t.decl().name().startswith(q.name + '_') or t.decl().eq(q.leaf(mapped_at(q), BV64, bv(0)).decl()) for t in seen)]
    if len(got) != 1:
        raise Unsupported('container enumerated by ' + fn)
    return got[0]


@spec('Properties', 'P03')
def properties(x):
    E, h = x.E, x.h
    props, pats = which(x, 'vp_eachProperty'), which(x, 'vp_eachPatternProperty')
    noNUL(E, props.keyat(bv(0)).decl(), pats.keyat(bv(0)).decl())
    po = mapped_at(props)
    nonnull(E, props, po)
    nonnull(E, pats, po)
    add = sub(x, 'vp_additionalProperties', True)
    hh = z3.If(K(h, A.OBJ), h, EMPTY_OBJ)
    n = A.olen(h)
    E.len_terms += [props.n, pats.n, n, A.olen(EMPTY_OBJ)]
    name, value = (lambda k: A.mname(h, k)), (lambda k: A.mval(h, k))
    match = lambda j, s: A.match_pat(pats.keyat(j), s)
    T = z3.BoolVal(True)
    # what the keyword means
    by_name = all_fold(E, 'properties_valid', lambda i: z3.Or(z3.Not(has_member(h, props.keyat(i))), V(x, props.leaf(po, BV64, i), value(A.ofind(h, props.keyat(i))))))
    positions = lambda E, entry, hst, depth: [(i,) for i in seq_positions(E, entry, pats.name)]
    by_pattern1 = all_fold(E, 'members_valid_for_pattern', lambda j, k: z3.Or(z3.Not(match(j, name(k))), V(x, pats.leaf(po, BV64, j), value(k))), psorts=[BV64], use=positions)
    by_pattern = all_fold(E, 'patterns_valid', lambda j: by_pattern1(j, n))
    named = any_fold(E, 'is_a_property', lambda s, i: props.keyat(i) == s, psorts=[Str], use=False)
    matched_by = any_fold(E, 'matches_a_pattern', lambda s, j: match(j, s), psorts=[Str], use=False)
    matched = lambda k: z3.Or(named(name(k), props.n), matched_by(name(k), pats.n))
    all_matched = all_fold(E, 'members_matched', matched, use=False)
    rest = all_fold(E, 'other_members_valid', lambda k: z3.Or(matched(k), V(x, add, value(k))))
    # the set of matched members which the code builds, and lemmas that relate it to the meaning
    setP = Fold(E, 'names_matched', [], SetS, lambda: z3.K(Str, z3.BoolVal(False)),
                lambda i, a: z3.If(has_member(h, props.keyat(i)), z3.Store(a, props.keyat(i), T), a), kind='set')
    setI = Fold(E, 'names_matched_by_pattern', [SetS, BV64], SetS, lambda m, j: m,
                lambda m, j, k, a: z3.If(match(j, name(k)), z3.Store(a, name(k), T), a), kind='set')
    setQ = Fold(E, 'names_matched_by_patterns', [], SetS, lambda: setP(props.n), lambda j, a: setI(a, j, n), kind='set')
    E.fold_list += [(setP, ()), (setQ, ()), (setI, lambda E, entry, hst, depth: [(m, j) for m in sets_in(entry) for j in seq_positions(E, entry, pats.name)])]
    k0, k, j, i, M = z3.Const('k0', BV64), z3.Const('k', BV64), z3.Const('j', BV64), z3.Const('i', BV64), z3.Const('M', SetS)
    big = bv(1 << 40)
    member = z3.And(K(h, A.OBJ), z3.ULT(k0, n))
    L1 = lambda i, k0: z3.Select(setP(i), name(k0)) == named(name(k0), i)
    L2 = lambda M, j, k, k0: z3.Select(setI(M, j, k), name(k0)) == z3.Or(z3.Select(M, name(k0)), z3.And(z3.ULT(k0, k), match(j, name(k0))))
    L3 = lambda j, k0: z3.Select(setQ(j), name(k0)) == z3.Or(named(name(k0), props.n), matched_by(name(k0), j))
    E.fname = 'lemma on the set of matched names'

    def prove(what, base, hyps, step):
        s = State()
        s.assume(member)
        E.oblige(s, 'lemma.%s (base)' % what, base, 'lemma')
        s = State()
        s.assume(member, *hyps)
        E.oblige(s, 'lemma.%s (step)' % what, step, 'lemma')
    prove('names matched by properties', L1(bv(0), k0), [z3.ULT(i, big), L1(i, k0)], L1(i + 1, k0))
    prove('names matched by one pattern', L2(M, j, bv(0), k0), [z3.ULT(k, n), L2(M, j, k, k0)], L2(M, j, k + 1, k0))
    s3 = State()
    s3.assume(member, z3.ULT(j, big), L3(j, k0), L2(setQ(j), j, n, k0))
    E.oblige(s3, 'lemma.names matched by patterns (step)', L3(j + 1, k0), 'lemma')
    s3 = State()
    s3.assume(member, L1(props.n, k0))
    E.oblige(s3, 'lemma.names matched by patterns (base)', L3(bv(0), k0), 'lemma')
    # cardinality of a set of member names
    final = setQ(pats.n)
    card = cnt_fold(E, 'matched_members', lambda M, k: z3.Select(M, name(k)), psorts=[SetS], use=False)
    C1 = lambda M, k, k0: card(z3.Store(M, name(k0), T), k) == card(M, k) + z3.If(z3.And(z3.ULT(k0, k), z3.Not(z3.Select(M, name(k0)))), bv(1), bv(0))
    C2 = lambda k: (card(final, k) == k) == all_matched(k)
    prove('adding a name to the set', C1(M, bv(0), k0), [z3.ULT(k, n), C1(M, k, k0)], C1(M, k + 1, k0))
    prove('the set has as many names as the object', C2(bv(0)), [z3.ULT(k, n), C2(k), L3(pats.n, k), z3.ULE(card(final, k), k)], C2(k + 1))
    NOSET = z3.K(Str, z3.BoolVal(False))
    prove('the empty set has no names', card(NOSET, bv(0)) == 0, [z3.ULT(k, n), card(NOSET, k) == 0], card(NOSET, k + 1) == 0)

    cache = {}

    def of_card(a):
        m = a.arg(0)
        out = [z3.Implies(K(h, A.OBJ), C2(n))]
        if z3.is_store(m):
            k0 = A.ofind(h, m.arg(1))
            ok = z3.And(K(h, A.OBJ), z3.ULT(k0, n), z3.ULE(a.arg(1), n))
            out.append(z3.Implies(ok, z3.And(A.mname(h, k0) == m.arg(1), A.ofind(h, A.mname(h, k0)) == k0, z3.substitute(C1(m.arg(0), a.arg(1), k0), (A.mname(h, k0), m.arg(1))))))
        if m.eq(NOSET):
            out.append(z3.Implies(z3.And(K(h, A.OBJ), z3.ULE(a.arg(1), n)), a == 0))
        return out

    def of_name(a):
        return [z3.Implies(z3.And(K(h, A.OBJ), z3.ULT(a.arg(1), n)), L3(pats.n, a.arg(1)))] if a.arg(0).eq(h) else []

    def hook(apps, formulas):
        out = []
        for i, a in apps.items():
            e = cache.get(i)
            if e is None:
                d = a.decl().get_id()
                e = cache[i] = (a, of_card(a) if d == card.d.get_id() else of_name(a) if d == A.mname.get_id() else [])
            out.extend(e[1])
        return out
    E.axiom_hooks.append(hook)

    def template(E, entry, hst, L, depth, Cand):
        out = []
        for c in [l for l in L if l.kind == 'card']:
            for m in [l for l in L if l.kind == 'set' and l.key == c.key]:
                out.append(Cand('%s is the number of members in it' % c.name, lambda E, s, d, c=c, m=m: c.get(s, d) == card(m.get(s, d), n)))
        return out
    E.templates.append(template)
    ok = z3.And(by_name(props.n), by_pattern(pats.n), z3.If(add == 0, all_matched(n), rest(n)))
    return z3.Or(ignored(x, [A.OBJ], maybe_object(h)), z3.Not(K(h, A.OBJ)), ok)


# ------------------------------------------------------------------ P04
@spec('Required', 'P04')
def required(x):
    sq = one_seq(x, 'set')
    E, h = x.E, x.h
    E.len_terms += [sq.n]
    c = all_fold(E, 'names_present', lambda i: has_member(h, sq.keyat(i)))
    noNUL(E, sq.keyat(bv(0)).decl())
    return z3.Or(ignored(x, [A.OBJ], maybe_object(h)), c(sq.n))


@spec('Dependencies', 'P04')
def dependencies(x):
    E, h = x.E, x.h
    props = [q for q in x.seqs.values() if 'std::set<' in q.dem][0]
    schemas = [q for q in x.seqs.values() if 'std::set<' not in q.dem][0]
    noNUL(E, props.keyat(bv(0)).decl(), schemas.keyat(bv(0)).decl())
    po, so = mapped_at(props), mapped_at(schemas)
    nonnull(E, schemas, so)
    deps = lambda i: props.child(i, po, 'set', 0)
    noNUL(E, deps(bv(0)).keyat(bv(0)).decl())
    E.len_terms += [props.n, schemas.n]
    inner = all_fold(E, 'listed_members_present', lambda i, j: has_member(h, deps(i).keyat(j)), psorts=[BV64],
                     use=lambda E, entry, hst, depth: dep_params(E, entry, props))
    E.len_fns = getattr(E, 'len_fns', [])
    E.len_fns.append(lambda E, entry: [deps(i[0]).n for i in dep_params(E, entry, props)])
    E.watch(deps(z3.Const('zz', BV64)).n.decl(), lambda i: [z3.ULT(deps(i).n, bv(A.MAXN))])
    cp = all_fold(E, 'property_dependencies_met', lambda i: z3.Or(z3.Not(has_member(h, props.keyat(i))), inner(i, deps(i).n)))
    cs = all_fold(E, 'schema_dependencies_met', lambda i: z3.Or(z3.Not(has_member(h, schemas.keyat(i))), V(x, schemas.leaf(so, BV64, i))))
    return z3.Or(ignored(x, [A.OBJ], maybe_object(h)), z3.And(cp(props.n), cs(schemas.n)))


def seq_positions(E, entry, name):
    """current positions of iterators over container `name` in the frames of a state"""
    out = {}
    for fr in entry.frames:
        if fr is None:
            continue
        for v in fr.env.values():
            if isinstance(v, Ptr) and isinstance(v.off, VOff) and isinstance(v.obj, tuple) and v.obj[1] == name:
                out[v.off.idx.get_id()] = v.off.idx
    for o in entry.mem.values():
        for n, v in o.cells.values():
            if isinstance(v, Ptr) and isinstance(v.off, VOff) and isinstance(v.obj, tuple) and v.obj[1] == name:
                out[v.off.idx.get_id()] = v.off.idx
    return list(out.values())


def dep_params(E, entry, props):
    return [(i,) for i in seq_positions(E, entry, props.name)]


# ------------------------------------------------------------------ P05
def size_spec(kind, getter, sizefn, ks, maybe, upper):
    def f(x):
        b = get(x, getter)
        n = sizefn(x.h)
        return z3.Or(ignored(x, ks, maybe(x.h)), z3.ULE(n, b) if upper else z3.UGE(n, b))
    spec(kind, 'P05')(f)


size_spec('MaxItems', 'vp_maxItems', arr_len, [A.ARR], maybe_array, True)
size_spec('MinItems', 'vp_minItems', arr_len, [A.ARR], maybe_array, False)
size_spec('MaxProperties', 'vp_maxProperties', obj_len, [A.OBJ], maybe_object, True)
size_spec('MinProperties', 'vp_minProperties', obj_len, [A.OBJ], maybe_object, False)


def len_spec(kind, getter, upper):
    @spec(kind, 'P05')
    def f(x):
        b = get(x, getter)
        n = S.codepoints(as_string(x.E, x.h))
        return z3.Or(ignored(x, [A.STR], maybe_string(x.h)), z3.ULE(n, b) if upper else z3.UGE(n, b))


len_spec('MaxLength', 'vp_maxLength', True)
len_spec('MinLength', 'vp_minLength', False)


# ------------------------------------------------------------------ P06
def bound_spec(kind, getter, ex, le, lt):
    @spec(kind, 'P06')
    def f(x):
        m, e = get(x, getter), get(x, ex)
        x.st.assume(z3.Not(z3.fpIsNaN(m)))
        d = as_double(x.h)
        return z3.Or(ignored(x, [A.INT_, A.DBL], maybe_double(x.h)), z3.If(to_b(x.E, e), lt(d, m), le(d, m)))


bound_spec('Maximum', 'vp_maximum', 'vp_exclusiveMaximum', z3.fpLEQ, z3.fpLT)
bound_spec('Minimum', 'vp_minimum', 'vp_exclusiveMinimum', z3.fpGEQ, z3.fpGT)


# ------------------------------------------------------------------ P07
def int_multiple(i, k):
    return z3.SRem(i, k) == 0


@spec('MultipleOfInt', 'P07')
def multiple_of_int(x):
    """a divisor of zero is refused by the parser; what it means is left open"""
    k = get(x, 'vp_multipleOfInt')
    h = x.h
    i = z3.If(K(h, A.INT_), A.vint(h), z3.If(K(h, A.DBL), z3.fpToSBV(z3.RTZ(), A.vdbl(h), z3.BitVecSort(64)), pi_val(A.vstr(h))))
    d = as_double(h)
    fmod = z3.Function('fmod', F64, F64, F64)
    big = z3.fpEQ(fmod(d, i2d(k)), z3.FPVal(0.0, F64))
    of_double = z3.And(integral(d), z3.If(is_integral(d), int_multiple(z3.fpToSBV(z3.RTZ(), d, z3.BitVecSort(64)), k), big))
    x.unless = k == 0
    return z3.Or(ignored(x, [A.INT_, A.DBL], z3.Or(maybe_integer(h), maybe_double(h))), z3.If(maybe_integer(h), int_multiple(i, k), of_double))


@spec('MultipleOfDouble', 'P07')
def multiple_of_double(x):
    """a quotient within one part in 2^52 of an integer is a multiple, one further than four parts is not; in between the
    outcome is left to rounding"""
    E, h = x.E, x.h
    E.fp_uf = True
    k = get(x, 'vp_multipleOfDouble')
    x.st.assume(z3.Not(z3.Or(z3.fpIsNaN(k), z3.fpIsInf(k))))
    maybe = z3.Or(maybe_double(h), maybe_integer(h))
    d = z3.If(maybe_double(h), as_double(h), i2d(pi_val(A.vstr(h))))
    q = E.fdiv(d, k)
    diff = z3.fpAbs(z3.fpSub(RNE, q, z3.fpRoundToIntegral(z3.RNA(), q)))
    ulp = z3.fpMul(RNE, z3.fpMax(z3.fpAbs(q), z3.FPVal(1.0, F64)), z3.FPVal(2.0**-52, F64))
    no = z3.Or(z3.fpIsNaN(q), z3.fpIsInf(q))
    sure = z3.And(z3.Not(no), z3.fpLEQ(diff, ulp))
    never = z3.Or(no, z3.fpGT(diff, z3.fpMul(RNE, ulp, z3.FPVal(4.0, F64))))
    zero = z3.fpEQ(d, z3.FPVal(0.0, F64))
    x.unless = z3.And(z3.Not(zero), z3.Or(z3.fpEQ(k, z3.FPVal(0.0, F64)), z3.Not(z3.Or(sure, never))))
    return z3.Or(ignored(x, [A.INT_, A.DBL], maybe), zero, sure)


# ------------------------------------------------------------------ P08
@spec('Type', 'P08')
def type_(x):
    E, h = x.E, x.h
    named, schemas = one_seq(x, 'set'), one_seq(x, 'vector')
    nonnull(E, schemas, 0)
    E.len_terms += [named.n, schemas.n]
    weak = z3.Not(x.strict)

    def ok(t):
        c = lambda n: t == bv(n, 32)
        return z3.Or(c(0),
                     z3.And(c(1), K(h, A.ARR)),
                     z3.And(c(2), z3.Or(K(h, A.BOOL), z3.And(weak, maybe_bool(E, h)))),
                     z3.And(c(3), z3.Or(K(h, A.INT_), z3.And(K(h, A.DBL), integral(A.vdbl(h))), z3.And(weak, maybe_integer(h)))),
                     z3.And(c(4), z3.Or(K(h, A.NUL), z3.And(weak, maybe_null(E, h)))),
                     z3.And(c(5), z3.Or(K(h, A.INT_, A.DBL), z3.And(weak, maybe_double(h)))),
                     z3.And(c(6), K(h, A.OBJ)),
                     z3.And(c(7), K(h, A.STR)))
    cn = any_fold(E, 'named_types_matching', lambda i: ok(named.keyat(i)))
    cs = any_fold(E, 'type_schemas_accepting', lambda i: V(x, schemas.leaf(0, BV64, i)))
    return z3.Or(cn(named.n), cs(schemas.n))


# ------------------------------------------------------------------ P09
@spec('Const', 'P09', generalised=False)
def const(x):
    p = Opq(z3.Const('const_value', BV64), 0, 'Frozen')
    x.st.assume(p.t != 0)
    co = x.st.wobj(x.con.obj)
    cells = [off for off, (n, v) in co.cells.items() if isinstance(v, Opq) and off > 0]
    got = get(x, 'vp_const')
    for off in cells:
        n, v = co.cells[off]
        s = x.st.clone()
        s.wobj(x.con.obj).cells[off] = (n, p)
        r = x.E.call1(s, 'vp_const', [x.con])
        if isinstance(r, Opq) and r.t.eq(p.t):
            x.st.wobj(x.con.obj).cells[off] = (n, p)
            return A.frozen_eq(p.t, x.h, x.strict)
    raise Unsupported('layout of ConstConstraint')


@spec('Enum', 'P09')
def enum(x):
    sq = one_seq(x)
    E = x.E
    nonnull(E, sq, 0)
    E.len_terms += [sq.n]
    E.elem_tags[(sq.name, 0)] = 'Frozen'
    c = any_fold(E, 'equal_values', lambda i: A.frozen_eq(sq.leaf(0, BV64, i), x.h, x.strict))
    return c(sq.n)


def iterator_positions(E, entry, hst=None, depth=None):
    """positions of the array iterators in memory (objects of a handle and an index)"""
    out = {}
    for o in entry.mem.values():
        c = o.cells.get(8)
        if o.size == 16 and c and c[0] == 8 and isinstance(c[1], z3.BitVecRef) and c[1].size() == 64:
            out[c[1].get_id()] = (c[1],)
    return list(out.values())


@spec('UniqueItems', 'P09')
def unique_items(x):
    E, h = x.E, x.h
    n = arr_len(h)
    E.len_terms += [A.alen(h), A.alen(EMPTY_ARR)]
    dup = any_fold(E, 'equals_later_item', lambda i, j: z3.And(z3.UGT(j, i), A.Equal(A.elem(h, i), A.elem(h, j), z3.BoolVal(True))), psorts=[BV64],
                   use=iterator_positions, extra=[('none before the next item', lambda ps, t, f: z3.Implies(z3.Or(z3.ULE(t, ps[0]), t == ps[0] + 1), z3.Not(f)))])
    some = any_fold(E, 'some_item_is_repeated', lambda i: dup(i, A.alen(h)))
    return z3.Or(ignored(x, [A.ARR], maybe_array(h)), z3.Not(K(h, A.ARR)), z3.Not(some(A.alen(h))))


# ------------------------------------------------------------------ P13
@spec('Pattern', 'P13')
def pattern(x):
    out = x.st.new(32, 'mem', name='pattern')
    x.E.call1(x.st, 'vp_pattern', [x.con, Ptr(out.id, 0)])
    p = gets_str(x, out)
    return z3.Or(ignored(x, [A.STR], maybe_string(x.h)), A.match_pat(p, as_string(x.E, x.h)))


def gets_str(x, o):
    return S.gets(x.E, x.st, Ptr(o.id, 0)).t


# ------------------------------------------------------------------ P10
B32 = z3.BitVecSort(32)
date_ok = z3.Function('is_a_date', B32, B32, B32, z3.BoolSort())
leap_ok = z3.Function('leap_second_allowed', B32, B32, B32, z3.BoolSort())


def date_range(y, m, d):
    return z3.And(z3.UGE(m, 1), z3.ULE(m, 12), z3.ULE(d, 31), z3.ULE(y, 9999))


def leap_range(h, m, o):
    return z3.And(z3.ULE(h, 23), z3.ULE(m, 59), o >= -1439, o <= 1439)


def is_date(y, m, d):
    leap = z3.And(z3.URem(y, 4) == 0, z3.Or(z3.URem(y, 100) != 0, z3.URem(y, 400) == 0))
    days = z3.If(m == 2, z3.If(leap, bv(29, 32), bv(28, 32)), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), bv(30, 32), bv(31, 32)))
    return z3.And(z3.UGE(d, 1), z3.ULE(d, days))


def is_leap(h, m, o):
    """the second is the one after 23:59:59 UTC"""
    utc = h * 60 + m - o
    return z3.Or(utc == 1439, utc == 1439 - 1440, utc == 1439 + 1440)


def use_calendar(x):
    E = x.E

    def handler(name, within, ok, reports):
        def f(c):
            v = [c[1], c[2], c[3]]
            E.oblige(c.st, 'precondition of ' + name, within(*v), 'pre')
            E.assumed.add('contract: ' + name + ' (proved as visit.' + name + ')')

            def no(q):
                if reports and isinstance(x.results, Ptr):
                    a, e = S.qfind(E, q.st, x.results)
                    E.aset(q.st, a, AErrQ(e.head, simp(e.tail + 1), z3.Store(e.arr, e.tail, fresh('error', ErrS))))
                    q.st.assume(z3.ULT(e.tail, bv(1 << 60)))
                return z3.BoolVal(False)
            return c.split(ok(*v), lambda q: z3.BoolVal(True), no)
        E.handlers['valijson::ValidationVisitor::' + name] = f
    handler('validate_date_range', date_range, date_ok, True)
    handler('validate_leap_second', leap_range, leap_ok, False)


def calendar(x, name, within, ok, reports):
    E = x.E
    v = [z3.Const(n, B32) for n in ('first', 'second', 'third')]
    x.st.assume(within(*v))
    path_duties(x) if isinstance(x.results, Ptr) else None
    E.fname = 'ValidationVisitor::' + name
    fn = [n for n, d in E.m.dem.items() if canon(d) == 'valijson::ValidationVisitor::' + name and 'AbsAdapter' in d]
    if len(fn) != 1:
        raise Unsupported(name + ' not found')
    finals = E.call(x.st, fn[0], [x.visitor] + v)
    if reports:
        return check_visit(x, finals, ok(*v))
    res, x.results = x.results, NULL
    return check_visit(x, finals, ok(*v))


CALENDAR = {'validate_date_range': (date_range, is_date, True), 'validate_leap_second': (leap_range, is_leap, False)}


@spec('Format', 'P10')
def format_(x):
    from .. import lib_regex as R
    E = x.E
    lib_text.setup(E)
    R.setup(E)
    out = x.st.new(32, 'mem', name='format')
    E.call1(x.st, 'vp_format', [x.con, Ptr(out.id, 0)])
    f = gets_str(x, out)
    s = A.vstr(x.h)
    n = S.slen(s)
    use_calendar(x)
    ch = lambda p: S.sbyte(s, simp(p) if not isinstance(p, int) else bv(p))
    at = lambda p, *cs: z3.Or([ch(p) == ord(c) for c in cs])
    dig = lambda p: z3.And(z3.UGE(ch(p), 48), z3.ULE(ch(p), 57))
    num = lambda p: z3.ZeroExt(24, ch(p) - 48)
    two = lambda p: (z3.BitVecVal(0, 32) * 10 + num(p)) * 10 + num(p + 1)
    four = lambda p: (two(p) * 10 + num(p + 2)) * 10 + num(p + 3)
    small = lambda p: (ch(p) - 48) * 10 + (ch(p + 1) - 48)
    digs = lambda *ps: z3.And([dig(p) for p in ps])

    def date(p):
        y, m, d = four(p), two(p + 5), two(p + 8)
        return z3.And(digs(p, p + 1, p + 2, p + 3, p + 5, p + 6, p + 8, p + 9), at(p + 4, '-'), at(p + 7, '-'),
                      z3.UGE(small(p + 5), 1), z3.ULE(small(p + 5), 12), z3.UGE(small(p + 8), 1), z3.ULE(small(p + 8), 31), date_ok(y, m, d))

    def time(p):
        h, m, sec = two(p), two(p + 3), two(p + 6)
        run = R.run_of(s, bv(p + 9), R.mask(R.DIGITS))
        dot = at(p + 8, '.')
        z = z3.If(z3.And(z3.UGT(n, p + 8), dot), p + 9 + run, bv(p + 8))       # where the zone starts
        zone = z3.And(n == z + 1, at(z, 'Z', 'z'))
        oh, om = two(z + 1), two(z + 4)
        off = z3.And(n == z + 6, at(z, '+', '-'), digs(z + 1, z + 2, z + 4, z + 5), at(z + 3, ':'), z3.ULE(small(z + 1), 23), z3.ULE(small(z + 4), 59))
        shift = z3.If(off, z3.If(at(z, '-'), -(oh * 60 + om), oh * 60 + om), bv(0, 32))
        return z3.And(z3.UGE(n, p + 8), digs(p, p + 1, p + 3, p + 4, p + 6, p + 7), at(p + 2, ':'), at(p + 5, ':'), z3.ULE(small(p), 23), z3.ULE(small(p + 3), 59), z3.ULE(small(p + 6), 60),
                      z3.Implies(z3.And(z3.UGT(n, p + 8), dot), z3.UGE(run, 1)),
                      z3.Or(zone, off, z3.And(z3.Not(x.dt), n == z)),
                      z3.Implies(small(p + 6) == 60, leap_ok(h, m, shift)))

    def octet(p, k):
        """k digits at p are a number up to 255"""
        if k == 1:
            return dig(p)
        if k == 2:
            return digs(p, p + 1)
        return z3.And(digs(p, p + 1, p + 2), z3.ULE(num(p) * 100 + two(p + 1), 255))

    def ipv4():
        ends = {0: z3.BoolVal(True)}
        for i in range(4):
            new = {}
            for p, c in ends.items():
                for k in (1, 2, 3):
                    q = p + k + (i < 3)
                    new.setdefault(q, []).append(z3.And(c, octet(p, k), at(p + k, '.') if i < 3 else n == p + k))
            ends = {q: z3.Or(cs) for q, cs in new.items()}
        return z3.Or(list(ends.values()))
    L = E.str_lit
    want = {'date': [f == L('date')], 'time': [f == L('time')], 'dateTime': [f == L('date-time')], 'ipv4': [f == L('ipv4')],
            'other': [f != L(k) for k in ('date', 'time', 'date-time', 'ipv4')]}
    x.st.assume(*want[x.variant.split('-')[1]])
    ok = z3.If(f == L('date'), z3.And(n == 10, date(0)),
               z3.If(f == L('time'), time(0),
                     z3.If(f == L('date-time'), z3.And(z3.UGE(n, 19), date(0), at(10, 'T', 't'), time(11)),
                           z3.If(f == L('ipv4'), ipv4(), z3.BoolVal(True)))))
    return z3.Or(z3.Not(K(x.h, A.STR)), ok)


def run(module, kind, variant):
    """all obligations of visit(kind) -> Engine. Variants: with or without error collection, and for long proofs one for
    each type mode"""
    p, f, opts = SPECS[kind] if kind not in CALENDAR else ('P10', None, {})
    opts = dict(opts)
    results = variant.startswith('errors')
    if variant.endswith(('-strict', '-weak')):
        opts['strict'] = z3.BoolVal(variant.endswith('-strict'))
    E = new_engine(module)
    E.fname = 'ValidationVisitor::visit(%sConstraint)' % kind
    if kind in CALENDAR:
        E.nfinals = calendar(setup(E, None, results), kind, *CALENDAR[kind])
        return E
    x = setup(E, kind, results, **opts)
    x.variant = variant
    accept = f(x)
    E.nfinals = check_visit(x, run_visit(x, kind), accept, unless=getattr(x, 'unless', None))
    return E
