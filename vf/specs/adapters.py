"""Specifications of the casts, predicates and accessors of BasicAdapter (for an arbitrary JSON value) and of StdStringAdapter
(for an arbitrary string)."""
from .base import *

SPECS = {}


def spec(name, prop='P18'):
    def d(f):
        SPECS[name] = (prop, f)
        return f
    return d


def engine(module):
    E = new_engine(module)
    st = State()
    A.make_template(E, st)
    return E, st


def target(E, st, who, name='value'):
    """-> (adapter pointer, subject)"""
    if who == 'abs':
        h = z3.Const(name, BV64)
        return E.call1(st, 'vp_target', [h]), h
    s = z3.Const(name, Str)
    o = st.new(32, 'mem', name='string')
    o.abs[0] = AStr(s)
    return E.call1(st, 'vp_strtarget', [Ptr(o.id, 0)]), s


def cast_bool(E, h):
    return z3.If(K(h, A.BOOL), A.vbool(h), A.vstr(h) == E.str_lit(b'true'))


def cast_int(E, h):
    return z3.If(K(h, A.INT_), A.vint(h), z3.If(K(h, A.DBL), z3.fpToSBV(z3.RTZ(), A.vdbl(h), z3.BitVecSort(64)), pi_val(A.vstr(h))))


# what -> (whether it is possible, value, sort), for the abstract value
CAST = {
    'asBool': (maybe_bool, cast_bool, 'bool'),
    'asInteger': (lambda E, h: maybe_integer(h), cast_int, 'int'),
    'asDouble': (lambda E, h: maybe_double(h), lambda E, h: as_double(h), 'double'),
    'asString': (lambda E, h: z3.Or(maybe_string(h), K(h, A.NUL)), as_string, 'string'),
    'getBool': (lambda E, h: K(h, A.BOOL), lambda E, h: A.vbool(h), 'bool'),
    'getInteger': (lambda E, h: K(h, A.INT_), lambda E, h: A.vint(h), 'int'),
    'getDouble': (lambda E, h: K(h, A.DBL), lambda E, h: A.vdbl(h), 'double'),
    'getNumber': (lambda E, h: K(h, A.INT_, A.DBL), lambda E, h: as_double(h), 'double'),
    'getString': (lambda E, h: K(h, A.STR), lambda E, h: A.vstr(h), 'string'),
    'getArraySize': (lambda E, h: K(h, A.ARR), lambda E, h: A.alen(h), 'int'),
    'getObjectSize': (lambda E, h: K(h, A.OBJ), lambda E, h: A.olen(h), 'int'),
}
is_bool = lambda E, s: z3.Or(s == E.str_lit(b'true'), s == E.str_lit(b'false'))
CAST_STR = {
    'asBool': (is_bool, lambda E, s: s == E.str_lit(b'true'), 'bool'),
    'asInteger': (lambda E, s: pi_ok(s), lambda E, s: pi_val(s), 'int'),
    'asDouble': (lambda E, s: pd_ok(s), lambda E, s: pd_val(s), 'double'),
    'asString': (lambda E, s: z3.BoolVal(True), lambda E, s: s, 'string'),
    'getString': (lambda E, s: z3.BoolVal(True), lambda E, s: s, 'string'),
}
PRED = {
    'isNull': lambda E, h: K(h, A.NUL), 'isBool': lambda E, h: K(h, A.BOOL), 'isInteger': lambda E, h: K(h, A.INT_),
    'isDouble': lambda E, h: K(h, A.DBL), 'isNumber': lambda E, h: K(h, A.INT_, A.DBL), 'isString': lambda E, h: K(h, A.STR),
    'isArray': lambda E, h: K(h, A.ARR), 'isObject': lambda E, h: K(h, A.OBJ),
    'maybeNull': maybe_null, 'maybeBool': maybe_bool, 'maybeInteger': lambda E, h: maybe_integer(h), 'maybeDouble': lambda E, h: maybe_double(h),
    'maybeString': lambda E, h: maybe_string(h), 'maybeArray': lambda E, h: maybe_array(h), 'maybeObject': lambda E, h: maybe_object(h),
    'hasStrictTypes': lambda E, h: A.strict_adapter,
}
T, F = z3.BoolVal(True), z3.BoolVal(False)
PRED_STR = {
    'isNull': lambda E, s: F, 'isBool': lambda E, s: F, 'isInteger': lambda E, s: F, 'isDouble': lambda E, s: F, 'isNumber': lambda E, s: F,
    'isString': lambda E, s: T, 'isArray': lambda E, s: F, 'isObject': lambda E, s: F,
    'maybeNull': lambda E, s: s == E.str_lit(b''), 'maybeBool': is_bool, 'maybeInteger': lambda E, s: pi_ok(s), 'maybeDouble': lambda E, s: pd_ok(s),
    'maybeString': lambda E, s: T, 'hasStrictTypes': lambda E, s: T,
}


def same_double(a, b):
    return z3.Or(a == b, z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))


def same(kind, got, want):
    if kind == 'bool':
        return to_b0(got) == want
    if kind == 'double':
        return same_double(got, want)
    return got == want


def to_b0(v):
    return v if isinstance(v, z3.BoolRef) else Engine.to_bool(v)


def cast_task(E, st, who, name):
    """bool f(T &result): succeeds exactly when the cast exists, result is the cast value then and unchanged otherwise"""
    ok, val, kind = (CAST if who == 'abs' else CAST_STR)[name]
    t, h = target(E, st, who)
    out = st.new(32, 'mem', name='result')
    p = Ptr(out.id, 0)
    old = {'bool': z3.If(z3.Const('old_bool', z3.BoolSort()), bv(1, 8), bv(0, 8)), 'int': z3.Const('old_int', BV64),
           'double': z3.Const('old_double', F64), 'string': z3.Const('old_string', Str)}[kind]
    ty = {'bool': E.INT(8), 'int': E.INT(64), 'double': E.DOUBLE}.get(kind)
    if kind == 'string':
        E.aset(st, p, AStr(old))
    else:
        E.store(st, p, old, ty)
    E.fname = who + '::' + name + '(T &)'
    n = 0
    for s in E.call(st, ('va_' if who == 'abs' else 'vs_') + name, [t, p]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', F, 'post')
            continue
        r = to_b(E, s.ret)
        now = S.gets(E, s, p).t if kind == 'string' else E.load(s, p, ty)
        was = old if kind != 'bool' else to_b0(old)
        E.oblige(s, 'succeeds exactly when the cast is possible', r == ok(E, h), 'post')
        E.oblige(s, 'the result is the cast value', z3.Implies(r, same(kind, now, val(E, h))), 'post')
        E.oblige(s, 'a failed cast leaves the result alone', z3.Implies(z3.Not(r), same(kind, now, was)), 'post')
    return n


def value_task(E, st, who, name):
    """T f(): the cast value, or std::runtime_error when there is none"""
    ok, val, kind = (CAST if who == 'abs' else CAST_STR)[name]
    t, h = target(E, st, who)
    E.fname = who + '::' + name + '()'
    out = st.new(32, 'mem', name='result')
    p = Ptr(out.id, 0)
    n = 0
    for s in E.call(st, ('va_' if who == 'abs' else 'vs_') + name + 'V', [t, p] if kind == 'string' else [t]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'throws only when there is no such cast', z3.Not(ok(E, h)), 'post')
            continue
        E.oblige(s, 'returns only when the cast is possible', ok(E, h), 'post')
        got = S.gets(E, s, p).t if kind == 'string' else s.ret
        E.oblige(s, 'the cast value is returned', same(kind, got, val(E, h)), 'post')
    return n


def pred_task(E, st, who, name):
    want = (PRED if who == 'abs' else PRED_STR)[name]
    t, h = target(E, st, who)
    E.fname = who + '::' + name
    n = 0
    for s in E.call(st, ('va_' if who == 'abs' else 'vs_') + name, [t]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', F, 'post')
            continue
        E.oblige(s, 'holds exactly for its values', to_b(E, s.ret) == want(E, h), 'post')
    return n


def container_task(E, st, who, name):
    """asArray/asObject/getArray/getObject"""
    t, h = target(E, st, who)
    E.fname = who + '::' + name
    arr = name.endswith('Array')
    cast = name.startswith('as')
    own = K(h, A.ARR if arr else A.OBJ)
    other = z3.Or(empty_obj(h) if arr else empty_arr(h), z3.And(K(h, A.STR), A.vstr(h) == E.str_lit(b''))) if cast else F
    n = 0
    for s in E.call(st, 'va_' + name, [t]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'throws only when there is no such cast', z3.Not(z3.Or(own, other)), 'post')
            continue
        E.oblige(s, 'returns only when the cast is possible', z3.Or(own, other), 'post')
        E.oblige(s, 'the container is the value itself or empty', s.ret == z3.If(own, h, EMPTY_ARR if arr else EMPTY_OBJ), 'post')
    return n


def unsupported_task(E, st, who, name):
    """accessors a string value does not have throw"""
    t, h = target(E, st, who)
    E.fname = who + '::' + name
    n = 0
    args = [t] if name.endswith('V') else [t, Ptr(st.new(32, 'mem', name='result').id, 0)]
    for s in E.call(st, 'vs_' + name, args):
        n += 1
        E.oblige(s, 'throws', z3.BoolVal(s.status == 'throw'), 'post')
    return n


# ------------------------------------------------------------------ callbacks
cb_result = z3.Function('callback_result', BV64, z3.BoolSort())      # of the k-th call
CALLS = '#calls'


@S.contract('vp_element', 'vp_member')
def callback(c):
    """the caller's callback: the k-th call must get the k-th element; its answer is arbitrary"""
    E, st = c.E, c.st
    i = E.load(st, E.calls, E.INT(64))
    h = E.subject
    arr = len(c.args) == 1
    e = A.adapter_handle(E, st, c[0 if arr else 1])
    E.oblige(st, 'every call is for the next element', z3.And(z3.ULT(i, (A.alen if arr else A.olen)(h)), e == (A.elem if arr else A.mval)(h, i)), 'post')
    if not arr:
        E.oblige(st, 'the name belongs to the member', S.gets(E, st, c[0]).t == A.mname(h, i), 'post')
    E.store(st, E.calls, simp(i + 1), E.INT(64))
    return cb_result(i)


def apply_task(E, st, who, name):
    t, h = target(E, st, who)
    E.fname = who + '::' + name
    arr = name.endswith('Array')
    E.subject = h
    g = st.new(8, 'mem', name='calls made')
    E.calls = Ptr(g.id, 0)
    E.store(st, E.calls, bv(0), E.INT(64))
    n = (A.alen if arr else A.olen)(h)
    E.len_terms += [n]
    c = all_fold(E, 'callbacks_accepted', lambda i: cb_result(i))
    own = K(h, A.ARR if arr else A.OBJ)
    maybe = (maybe_array if arr else maybe_object)(h)
    k = 0
    for s in E.call(st, 'va_' + name, [t]):
        k += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', F, 'post')
            continue
        r = to_b(E, s.ret)
        calls = E.load(s, E.calls, E.INT(64))
        E.oblige(s, 'true exactly when no call returned false', r == z3.And(maybe, z3.Implies(own, c(n))), 'post')
        E.oblige(s, 'every element is visited until one is refused', z3.Implies(z3.And(own, r), calls == n), 'post')
        E.oblige(s, 'nothing is visited in other values', z3.Implies(z3.Not(own), calls == 0), 'post')
        E.oblige(s, 'visiting stops at the first refusal', z3.Implies(z3.And(own, z3.Not(r)), z3.And(z3.UGT(calls, 0), z3.Not(cb_result(calls - 1)))), 'post')
    return k


# ------------------------------------------------------------------ equality
def equal_strict(E, h, g):
    """JSON structural equality, one level down; elements and members are compared with Equal"""
    cont = z3.And(A.alen(h) == A.alen(g), E.eq_elems(A.alen(h)))
    obj = z3.And(A.olen(h) == A.olen(g), E.eq_members(A.olen(g)))
    num = z3.If(z3.And(K(h, A.INT_), K(g, A.INT_)), A.vint(h) == A.vint(g), z3.fpEQ(as_double(h), as_double(g)))
    both = lambda *k: z3.And(K(h, *k), K(g, *k))
    return z3.Or(both(A.NUL), z3.And(both(A.BOOL), A.vbool(h) == A.vbool(g)), z3.And(both(A.INT_, A.DBL), num),
                 z3.And(both(A.STR), A.vstr(h) == A.vstr(g)), z3.And(both(A.ARR), cont), z3.And(both(A.OBJ), obj))


def equal_weak(E, h, g):
    """weak comparison: both are cast to the first of null, Boolean, number, string that the left value can be cast to"""
    ints = z3.And(maybe_integer(h), maybe_integer(g))
    num = z3.If(ints, cast_int(E, h) == cast_int(E, g), z3.And(maybe_double(g), z3.fpEQ(as_double(h), as_double(g))))
    arr = z3.If(K(g, A.ARR), z3.If(A.alen(h) == A.alen(g), E.eq_elems(A.alen(h)), z3.BoolVal(False)), z3.And(maybe_array(g), A.alen(h) == 0))
    obj = z3.If(K(g, A.OBJ), z3.If(A.olen(h) == A.olen(g), E.eq_members(A.olen(g)), z3.BoolVal(False)), z3.And(maybe_object(g), A.olen(h) == 0))
    return z3.If(maybe_null(E, h), maybe_null(E, g),
                 z3.If(maybe_bool(E, h), z3.And(maybe_bool(E, g), cast_bool(E, h) == cast_bool(E, g)),
                       z3.If(maybe_double(h), num,
                             z3.If(maybe_integer(h), z3.And(maybe_integer(g), cast_int(E, h) == cast_int(E, g)),
                                   z3.If(maybe_string(h), z3.And(maybe_string(g), as_string(E, h) == as_string(E, g)),
                                         z3.If(K(h, A.ARR), arr, obj))))))


def equal_task(E, st, who, name):
    t, h = target(E, st, 'abs')
    u, g = target(E, st, 'abs', 'other_value')
    E.fname = 'abs::equalTo'
    E.verifying = 'equalTo'
    strict = z3.Const('strict', z3.BoolSort()) if name == 'equalTo' else z3.BoolVal(name == 'equalToStrict')
    E.len_terms += [A.alen(h), A.olen(g)]
    E.eq_elems = all_fold(E, 'elements_equal', lambda i: A.Equal(A.elem(h, i), A.elem(g, i), strict))
    E.eq_members = all_fold(E, 'members_equal', lambda i: z3.And(z3.ULT(A.ofind(h, A.mname(g, i)), A.olen(h)),
                                                                 A.Equal(A.mval(h, A.ofind(h, A.mname(g, i))), A.mval(g, i), strict)))
    n = 0
    for s in E.call(st, 'va_equalTo', [t, u, strict]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', F, 'post')
            continue
        want = equal_strict(E, h, g) if name == 'equalToStrict' else equal_weak(E, h, g)
        E.oblige(s, 'structural equality', to_b(E, s.ret) == want, 'post')
    return n


def equal_str_task(E, st, who, name):
    """a member name equals exactly the values that are (strict) or cast to (weak) the same string"""
    t, s0 = target(E, st, 'str')
    u, g = target(E, st, 'abs', 'other_value')
    E.fname = 'str::equalTo'
    strict = z3.Const('strict', z3.BoolSort())
    n = 0
    for s in E.call(st, 'vs_equalTo', [t, u, strict]):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', F, 'post')
            continue
        want = z3.And(z3.If(strict, K(g, A.STR), maybe_string(g)), as_string(E, g) == s0)
        E.oblige(s, 'string equality', to_b(E, s.ret) == want, 'post')
    return n


TASKS = {'abs.equalToStrict': (equal_task, 'abs', 'equalToStrict'), 'abs.equalToWeak': (equal_task, 'abs', 'equalToWeak'), 'str.equalTo': (equal_str_task, 'str', 'equalTo')}
for nm in CAST:
    TASKS['abs.' + nm] = (cast_task, 'abs', nm)
    TASKS['abs.' + nm + 'V'] = (value_task, 'abs', nm)
for nm in PRED:
    TASKS['abs.' + nm] = (pred_task, 'abs', nm)
for nm in ('asArray', 'asObject', 'getArray', 'getObject'):
    TASKS['abs.' + nm] = (container_task, 'abs', nm)
for nm in ('applyToArray', 'applyToObject'):
    TASKS['abs.' + nm] = (apply_task, 'abs', nm)
for nm in CAST_STR:
    TASKS['str.' + nm] = (cast_task, 'str', nm)
    TASKS['str.' + nm + 'V'] = (value_task, 'str', nm)
for nm in PRED_STR:
    TASKS['str.' + nm] = (pred_task, 'str', nm)
for nm in ('getBool', 'getInteger', 'getDouble', 'getNumber', 'getArraySize', 'getObjectSize'):
    TASKS['str.' + nm] = (unsupported_task, 'str', nm)
    TASKS['str.' + nm + 'V'] = (unsupported_task, 'str', nm + 'V')


def run(module, name):
    fn, who, nm = TASKS[name]
    E, st = engine(module)
    E.nfinals = fn(E, st, who, nm)
    return E
