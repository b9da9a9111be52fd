"""Contracts of the abstract JSON value (harness/abs_adapter.hpp), the abstract regex engine, the regex cache,
and of the parts of the validator that a visit function calls (schema verdict, constraint acceptance)."""
import z3
from .engine import Abs, Ptr, Opq, FnPtr, Agg, NULL, UNDEF, Str, BV64, F64, bv, fresh, is_lit, simp, Throw, Multi, Obj
from .ir import Unsupported
from .names import canon, params
from .lib_std import H, contract, AStr, gets, APath, getpath, AErrQ, qfind, ErrS, PathS, slen, lit, pd_val as S_pd_val

BV8 = z3.BitVecSort(8)
Bool = z3.BoolSort()
# kinds of JSON value
NUL, BOOL, INT_, DBL, OBJ, ARR, STR = range(7)
kind = z3.Function('kind', BV64, BV8)
vbool = z3.Function('vbool', BV64, Bool)
vint = z3.Function('vint', BV64, BV64)
vdbl = z3.Function('vdbl', BV64, F64)
vstr = z3.Function('vstr', BV64, Str)
alen = z3.Function('alen', BV64, BV64)
elem = z3.Function('elem', BV64, BV64, BV64)
olen = z3.Function('olen', BV64, BV64)
mname = z3.Function('mname', BV64, BV64, Str)
mval = z3.Function('mval', BV64, BV64, BV64)
ofind = z3.Function('ofind', BV64, Str, BV64)
strict_adapter = z3.Const('adapter_has_strict_types', Bool)
MAXN = 1 << 31


def k_is(h, k):
    return kind(h) == bv(k, 8)


def setup_axioms(E):
    E.watch(kind, lambda h: [z3.ULE(kind(h), bv(6, 8))])
    E.watch(alen, lambda h: [z3.ULT(alen(h), bv(MAXN))])
    E.watch(olen, lambda h: [z3.ULT(olen(h), bv(MAXN))])
    E.watch(mname, lambda h, i: [z3.Implies(z3.ULT(i, olen(h)), ofind(h, mname(h, i)) == i)])
    E.watch(ofind, lambda h, s: [z3.ULE(ofind(h, s), olen(h)), z3.Implies(z3.ULT(ofind(h, s), olen(h)), mname(h, ofind(h, s)) == s)])
    E.watch(slen, lambda s: [z3.ULT(slen(s), bv(MAXN)), (slen(s) == 0) == (s == E.str_lit(b''))])
    E.watch(S_pd_val, lambda s: [z3.Not(z3.Or(z3.fpIsNaN(S_pd_val(s)), z3.fpIsInf(S_pd_val(s))))])
    E.watch(vdbl, lambda h: [z3.Not(z3.Or(z3.fpIsNaN(vdbl(h)), z3.fpIsInf(vdbl(h))))])


def hnd(c, i=0):
    """handle stored in the AbsValue/AbsArray/AbsObject object at argument i"""
    v = c.E.load(c.st, c[i], c.E.INT(64))
    return v


def is_contract(name, k):
    @contract('absj::AbsValue::' + name)
    def f(c):
        h = hnd(c)
        if isinstance(k, tuple):
            return z3.Or([k_is(h, x) for x in k])
        return k_is(h, k)


for nm, k in (('isNull', NUL), ('isBool', BOOL), ('isInteger', INT_), ('isDouble', DBL), ('isNumber', (INT_, DBL)), ('isObject', OBJ),
              ('isArray', ARR), ('isString', STR)):
    is_contract(nm, k)


def getter(name, k, setv):
    @contract('absj::AbsValue::' + name)
    def f(c):
        h = hnd(c)

        def yes(q):
            setv(q, h)
            return z3.BoolVal(True)
        return c.split(k_is(h, k), yes, lambda q: z3.BoolVal(False))


getter('getBool', BOOL, lambda q, h: q.E.store(q.st, q[1], z3.If(vbool(h), bv(1, 8), bv(0, 8)), q.E.INT(8)))
getter('getInteger', INT_, lambda q, h: q.E.store(q.st, q[1], vint(h), q.E.INT(64)))
getter('getDouble', DBL, lambda q, h: q.E.store(q.st, q[1], vdbl(h), q.E.DOUBLE))
getter('getString', STR, lambda q, h: q.E.aset(q.st, q[1], AStr(vstr(h))))
getter('getArraySize', ARR, lambda q, h: q.E.store(q.st, q[1], alen(h), q.E.INT(64)))
getter('getObjectSize', OBJ, lambda q, h: q.E.store(q.st, q[1], olen(h), q.E.INT(64)))


def opt_result(c, h, cond):
    r = Agg([h, z3.If(cond, bv(1, 8), bv(0, 8))])
    if c.sret is not None:
        c.E.store(c.st, c.sret, h, c.E.INT(64))
        c.E.store(c.st, c.E.padd(c.sret, 8), r.v[1], c.E.INT(8))
        return UNDEF
    return r


@contract('absj::AbsValue::getArrayOptional')
def get_arr_opt(c):
    h = hnd(c)
    return c.split(k_is(h, ARR), lambda q: opt_result(q, h, z3.BoolVal(True)), lambda q: opt_result(q, h, z3.BoolVal(False)))


@contract('absj::AbsValue::getObjectOptional')
def get_obj_opt(c):
    h = hnd(c)
    return c.split(k_is(h, OBJ), lambda q: opt_result(q, h, z3.BoolVal(True)), lambda q: opt_result(q, h, z3.BoolVal(False)))


@contract('absj::AbsValue::hasStrictTypes')
def has_strict(c):
    return strict_adapter


@contract('absj::AbsValue::AbsValue')
def absvalue_ctor(c):
    h = fresh('h', BV64)
    c.st.assume(k_is(h, NUL))
    c.E.store(c.st, c[0], h, c.E.INT(64))
    return UNDEF


@contract('absj::AbsArray::AbsArray')
def absarray_ctor(c):
    h = z3.Const('empty_array', BV64)
    c.st.assume(k_is(h, ARR), alen(h) == 0)
    c.E.store(c.st, c[0], h, c.E.INT(64))
    return UNDEF


@contract('absj::AbsObject::AbsObject')
def absobject_ctor(c):
    h = z3.Const('empty_object', BV64)
    c.st.assume(k_is(h, OBJ), olen(h) == 0)
    c.E.store(c.st, c[0], h, c.E.INT(64))
    return UNDEF


@contract('absj::AbsArray::size')
def arr_size(c):
    return alen(hnd(c))


@contract('absj::AbsObject::size')
def obj_size(c):
    return olen(hnd(c))


@contract('absj::AbsArray::begin', 'absj::AbsObject::begin')
def it_begin(c):
    return Agg([hnd(c), bv(0)])


@contract('absj::AbsArray::end')
def arr_end(c):
    h = hnd(c)
    return Agg([h, alen(h)])


@contract('absj::AbsObject::end')
def obj_end(c):
    h = hnd(c)
    return Agg([h, olen(h)])


@contract('absj::AbsObject::find')
def obj_find(c):
    h = hnd(c)
    return Agg([h, ofind(h, gets(c.E, c.st, c[1]).t)])


def it(c, i=0):
    return hnd(c, i), c.E.load(c.st, c.E.padd(c[i], 8), c.E.INT(64))


@contract('absj::AbsArrayIt::operator==', 'absj::AbsObjectIt::operator==')
def it_eq(c):
    (h, i), (g, j) = it(c), it(c, 1)
    c.E.oblige(c.st, 'memory.iterators of the same container are compared', h == g, 'safety')
    return simp(i == j)


@contract('absj::AbsArrayIt::operator!=', 'absj::AbsObjectIt::operator!=')
def it_ne(c):
    (h, i), (g, j) = it(c), it(c, 1)
    c.E.oblige(c.st, 'memory.iterators of the same container are compared', h == g, 'safety')
    return simp(i != j)


def bound(c):
    return alen if 'AbsArrayIt' in canon(c.dem) else olen


@contract('absj::AbsArrayIt::operator++', 'absj::AbsObjectIt::operator++')
def it_inc(c):
    h, i = it(c)
    c.E.oblige(c.st, 'memory.iterator advanced within the container', z3.ULT(i, bound(c)(h)), 'safety')
    c.E.store(c.st, c.E.padd(c[0], 8), simp(i + 1), c.E.INT(64))
    if params(c.dem):
        return Agg([h, i])
    return c[0]


@contract('absj::AbsArrayIt::operator--', 'absj::AbsObjectIt::operator--')
def it_dec(c):
    h, i = it(c)
    c.E.oblige(c.st, 'memory.iterator moved back within the container', z3.UGT(i, 0), 'safety')
    c.E.store(c.st, c.E.padd(c[0], 8), simp(i - 1), c.E.INT(64))
    return c[0]


@contract('absj::AbsArrayIt::advance', 'absj::AbsObjectIt::advance')
def it_advance(c):
    h, i = it(c)
    n = c[1]
    j = simp(i + n)
    c.E.oblige(c.st, 'memory.iterator advanced within the container', z3.And(z3.ULE(j, bound(c)(h)), z3.Or(n >= 0, z3.ULE(-n, i))), 'safety')
    c.E.store(c.st, c.E.padd(c[0], 8), j, c.E.INT(64))
    return UNDEF


def new_adapter(E, st, dst, h):
    """construct an AbsAdapter for handle h at dst with the real constructor's layout"""
    tpl = E.adapter_template
    if tpl is None:
        raise Unsupported('adapter template')
    o = st.wobj(dst.obj)
    for off, (n, v) in tpl['cells'].items():
        E.kill(o, dst.off + off, n)
        o.cells[dst.off + off] = (n, h if off == tpl['h'] else v)


def make_template(E, st):
    """run the real AbsAdapter constructor once to learn its layout"""
    f = [n for n in E.m.fnidx if E.m.dem[n] == 'vp_target' or n == 'vp_target'][0]
    h = z3.Const('template_handle', BV64)
    s = st.clone()
    r = E.call1(s, f, [h])
    cells = dict(s.obj(r.obj).cells)
    off = [k for k, (n, v) in cells.items() if isinstance(v, z3.ExprRef) and v.eq(h)]
    E.adapter_template = {'cells': cells, 'h': off[0], 'size': s.obj(r.obj).size}
    for k, (n, v) in cells.items():
        if isinstance(v, Ptr):
            st.mem.setdefault(v.obj, s.mem[v.obj])


@contract('absj::AbsArrayIt::operator*')
def arr_deref(c):
    h, i = it(c)
    c.E.oblige(c.st, 'memory.array iterator dereferenced within the array', z3.ULT(i, alen(h)), 'safety')
    new_adapter(c.E, c.st, c.sret, elem(h, i))
    return UNDEF


@contract('absj::AbsObjectIt::operator*')
def obj_deref(c):
    h, i = it(c)
    c.E.oblige(c.st, 'memory.object iterator dereferenced within the object', z3.ULT(i, olen(h)), 'safety')
    c.E.aset(c.st, c.sret, AStr(mname(h, i)))
    new_adapter(c.E, c.st, c.E.padd(c.sret, 32), mval(h, i))
    return UNDEF


def adapter_handle(E, st, p):
    """handle of the AbsAdapter object at p"""
    return E.load(st, E.padd(p, E.adapter_template['h']), E.INT(64))


# ------------------------------------------------------------------ frozen values
frozen_eq = z3.Function('frozen_equal', BV64, BV64, Bool, Bool)      # (frozen value, value, strict)
frozen_of = z3.Function('frozen_of', BV64, BV64)


@contract('absj::AbsFrozen::equalTo')
def frozen_equal(c):
    fz = c[0]
    if not isinstance(fz, Opq):
        raise Unsupported('frozen value object')
    return frozen_eq(fz.t, adapter_handle(c.E, c.st, c[1]), c.E.to_bool(c[2]) if not isinstance(c[2], z3.BoolRef) else c[2])


@contract('absj::AbsValue::freeze')
def absvalue_freeze(c):
    t = frozen_of(hnd(c))
    c.st.assume(t != 0)
    return Opq(t, 0, 'Frozen')


# ------------------------------------------------------------------ regular expressions
eng_of = z3.Function('regex_of', Str, BV64)
regex_found = z3.Function('regex_found', BV64, Str, Bool)
match_pat = lambda p, s: regex_found(eng_of(p), s)


@contract('absj::Eng::Eng')
def eng_ctor(c):
    if len(params(c.dem)) == 1 and 'absj::Eng' not in params(c.dem)[0]:
        c.E.store(c.st, c[0], eng_of(gets(c.E, c.st, c[1]).t), c.E.INT(64))
        return UNDEF
    return NotImplemented


@contract('absj::Eng::search')
def eng_search(c):
    return regex_found(c.E.load(c.st, c[1], c.E.INT(64)), gets(c.E, c.st, c[0]).t)


class ACache(Abs):
    """regex cache. Type invariant: the engine stored under a pattern was built from that pattern."""
    def __init__(self, has):
        self.has = has

    def same(self, o):
        return self.has.eq(o.has)

    def havoc(self, E, label):
        return ACache(fresh('cache_' + label, z3.ArraySort(Str, Bool)))


def cache_entry(E, st, key):
    o = st.new(40, 'ext', None, 'cache entry')
    o.abs[0] = AStr(key)
    o.cells[32] = (8, eng_of(key))
    return Ptr(o.id, 0)


@contract('std::unordered_map::unordered_map')
def um_ctor(c):
    if 'absj::Eng' not in c.dem or params(c.dem):
        return NotImplemented
    c.E.aset(c.st, c[0], ACache(z3.K(Str, z3.BoolVal(False))))
    return UNDEF


@contract('std::unordered_map::find')
def um_find(c):
    a = c.E.aget(c.st, c[0], None)
    if not isinstance(a, ACache):
        return NotImplemented
    k = gets(c.E, c.st, c[1]).t
    return c.split(z3.Select(a.has, k), lambda q: cache_entry(q.E, q.st, k), lambda q: NULL)


@contract('std::unordered_map::end')
def um_end(c):
    a = c.E.aget(c.st, c[0], None)
    if not isinstance(a, ACache):
        return NotImplemented
    return NULL


@contract('std::unordered_map::emplace')
def um_emplace(c):
    a = c.E.aget(c.st, c[0], None)
    if not isinstance(a, ACache):
        return NotImplemented
    k = gets(c.E, c.st, c[1]).t
    ps = params(c.dem)
    if 'absj::Eng' in ps[1]:
        e = c.E.load(c.st, c[2], c.E.INT(64))
    else:
        e = eng_of(gets(c.E, c.st, c[2]).t)
    c.E.oblige(c.st, 'cache.stored engine was built from its key', e == eng_of(k), 'cache')
    had = z3.Select(a.has, k)
    c.E.aset(c.st, c[0], ACache(z3.Store(a.has, k, z3.BoolVal(True))))
    p = cache_entry(c.E, c.st, k)
    v = Agg([p, z3.If(had, bv(0, 8), bv(1, 8))])
    if c.sret is not None:
        c.E.store(c.st, c.sret, v.v[0], c.E.PTR)
        c.E.store(c.st, c.E.padd(c.sret, 8), v.v[1], c.E.INT(8))
        return UNDEF
    return v


@contract('std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_iterator::operator*', 'std::__detail::_Node_const_iterator::operator->')
def node_deref(c):
    p = c.E.load(c.st, c[0], c.E.PTR)
    if not isinstance(p, Ptr):
        c.E.oblige(c.st, 'memory.dereference of end iterator', z3.BoolVal(False), 'safety')
        raise Unsupported('end iterator')
    return p


# ------------------------------------------------------------------ visitor objects, schema verdicts
Valid = z3.Function('Valid', BV64, BV64, Bool, Bool, Bool)             # schema, value, strict types, strict date-time
ValidStr = z3.Function('ValidStr', BV64, Str, Bool, Bool, Bool)        # the same for a member name (StdStringAdapter)


def ptr_term(E, p):
    """identity of a schema-side pointer"""
    if isinstance(p, Opq):
        if p.off != 0:
            raise Unsupported('interior schema pointer')
        return p.t
    raise Unsupported('schema pointer %r' % (p,))


@contract('valijson::ValidationVisitor::ValidationVisitor')
def visitor_ctor(c):
    """remember the constructor arguments of a visitor object; the real constructor runs too"""
    ps = params(c.dem)
    if len(ps) < 4 or not isinstance(c[0], Ptr):
        return NotImplemented
    info = {}
    bools = []
    for i, p in enumerate(ps):
        a = c[i + 1]
        p = p.replace('std::__cxx11::', 'std::')
        if p.startswith('std::vector<'):
            info['path'] = getpath(c.E, c.st, a).t
        elif p.strip() == 'bool':
            bools.append(a)
        elif 'ValidationResults*' in p:
            info['results'] = a
        elif p.startswith('std::unordered_map'):
            info['cache'] = a
        elif 'Adapter' in p:
            info['target'] = a
    if len(bools) != 2 or len(info) != 4:
        raise Unsupported('visitor constructor parameters')
    info['strict'], info['dt'] = [b if isinstance(b, z3.BoolRef) else c.E.to_bool(b) for b in bools]
    if 'StdStringAdapter' in ps[0]:
        info['str'] = std_string_value(c.E, c.st, info['target'])
    else:
        info['h'] = adapter_handle(c.E, c.st, info['target'])
    if c.E.on_visitor and not isinstance(info['results'], Opq):
        c.E.on_visitor(c, info)
    c.st.wobj(c[0].obj).abs[VISITOR_OFF + c[0].off] = AVisitor(info)
    return NotImplemented


VISITOR_OFF = 1 << 24        # ghost record of a visitor object, kept beside its bytes


class AVisitor(Abs):
    def __init__(self, info):
        self.info = info

    def same(self, o):
        a, b = self.info, o.info
        return a.keys() == b.keys() and all(a[k].eq(b[k]) for k in a if isinstance(a[k], z3.ExprRef)) and all(
            repr(a[k]) == repr(b[k]) for k in a if not isinstance(a[k], z3.ExprRef))


def std_string_value(E, st, p):
    """string held by the StdStringAdapter at p (it stores a reference to it)"""
    o = st.obj(p.obj)
    for off, (n, v) in sorted(o.cells.items()):
        if off >= p.off and isinstance(v, (Ptr, Opq)) and n == 8 and off > p.off:
            return gets(E, st, v).t
    for off, a in o.abs.items():
        if isinstance(a, AStr):
            return a.t
    raise Unsupported('StdStringAdapter layout')


def queue_after(E, st, results, ret, why):
    """effect of a validation call on the error queue of its visitor"""
    if isinstance(results, Opq):
        if is_lit(results.t) and results.t.as_long() == 0:
            return
        raise Unsupported('results pointer')
    a, q = qfind(E, st, results)
    t1 = fresh('tail', BV64)
    arr = fresh('errs', z3.ArraySort(BV64, ErrS))
    st.assume(z3.UGE(t1, q.tail), z3.ULT(t1, bv(1 << 61)), z3.Implies(ret, t1 == q.tail), z3.Implies(z3.Not(ret), z3.UGT(t1, q.tail)))
    j = E.skolem_err
    st.assume(z3.Implies(z3.ULT(j, q.tail), z3.Select(arr, j) == z3.Select(q.arr, j)))
    E.aset(st, a, AErrQ(q.head, t1, arr))


def cache_after(E, st, p):
    if isinstance(p, Ptr):
        a = E.aget(st, p, ACache)
        E.aset(st, p, ACache(fresh('cache', z3.ArraySort(Str, Bool))))


Accepts = z3.Function('Accepts', BV64, BV64, Bool, Bool, Bool)         # constraint, value, strict types, strict date-time
AcceptsStr = z3.Function('AcceptsStr', BV64, Str, Bool, Bool, Bool)


@contract('absj::AbsConstraint::accept')
def constraint_accept(c):
    """an arbitrary constraint: its verdict, and errors exactly when it rejects"""
    E, st = c.E, c.st
    v = st.obj(c[1].obj).abs.get(VISITOR_OFF + c[1].off) if isinstance(c[1], Ptr) else None
    if not isinstance(v, AVisitor):
        raise Unsupported('accept on an unknown visitor')
    v = v.info
    cid = ptr_term(E, c[0])
    r = AcceptsStr(cid, v['str'], v['strict'], v['dt']) if 'str' in v else Accepts(cid, v['h'], v['strict'], v['dt'])
    queue_after(E, st, v['results'], r, 'constraint')
    cache_after(E, st, v['cache'])
    return r


@contract('valijson::ValidationVisitor::validateSchema')
def validate_schema(c):
    E, st = c.E, c.st
    if E.verifying == 'validateSchema' and len([f for f in st.frames if f is not None]) <= 1:
        return NotImplemented
    v = st.obj(c[0].obj).abs.get(VISITOR_OFF + c[0].off) if isinstance(c[0], Ptr) else None
    if not isinstance(v, AVisitor):
        raise Unsupported('validateSchema on an unknown visitor')
    v = v.info
    s = c[1]
    if isinstance(s, Opq) and is_lit(s.t) and s.t.as_long() == 0:
        E.oblige(st, 'memory.null schema pointer', z3.BoolVal(False), 'safety')
    if isinstance(s, Opq):
        E.oblige(st, 'memory.schema pointer is not null', s.t != 0, 'safety')
    sid = ptr_term(E, s)
    if 'str' in v:
        r = ValidStr(sid, v['str'], v['strict'], v['dt'])
    else:
        r = Valid(sid, v['h'], v['strict'], v['dt'])
    queue_after(E, st, v['results'], r, 'schema')
    cache_after(E, st, v['cache'])
    return r


# ------------------------------------------------------------------ equality of values
Equal = z3.Function('Equal', BV64, BV64, Bool, Bool)                  # value, value, strict


@contract('valijson::adapters::BasicAdapter::equalTo', 'valijson::adapters::Adapter::equalTo')
def equal_to(c):
    """equality of the values below the one being looked at; the body itself is verified for the outermost call"""
    E, st = c.E, c.st
    if E.verifying == 'equalTo' and len([f for f in st.frames if f is not None]) <= 1:
        return NotImplemented
    if 'StdString' in c.dem:
        return NotImplemented
    return Equal(adapter_handle(E, st, c[0]), adapter_handle(E, st, c[1]), c[2] if isinstance(c[2], z3.BoolRef) else E.to_bool(c[2]))
