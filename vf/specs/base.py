"""Set-up shared by the specifications of the visit functions."""
import z3
from ..engine import *
from ..engine import VOff
from ..ir import Module, Unsupported
from .. import lib_std as S
from .. import lib_adapter as A
from .. import lib_text, lib_regex
from ..lib_std import Seq, ASeq, AEmpty, AStr, APath, AErrQ, ErrS, PathS, key_sort, register_seq
from ..names import targs, canon, params


class Ctx:
    pass


def new_engine(module):
    E = Engine(module, S.H)
    E.adapter_template = None
    E.verifying = None
    E.on_visitor = E.on_error = None
    E.abstract_paths = True
    E.str_keep = []
    E.skolem_err = z3.Const('any_error_index', BV64)
    E.special_load_hook = lambda st, o, p, t, n: S.seq_load(E, st, o, p, t, n)
    E.opaque_load_hook = lambda st, p, t, n: frozen_vtable(E, st, p, t)
    E.special_abs_hook = lambda st, o, p, cls, make: S.seq_abs(E, st, o, p, cls, make)
    A.setup_axioms(E)
    E.watch(S.ctrunc, lambda s: [])
    return E


def frozen_vtable(E, st, p, t):
    """a frozen value is an object of the abstract frozen value class of the harness"""
    if p.tag == 'Frozen' and p.off == 0 and t.k == 'ptr':
        g = E.global_ptr(st, '@_ZTVN4absj9AbsFrozenE')
        return E.padd(g, 16)
    if p.tag == 'Constraint' and p.off == 0 and t.k == 'ptr':
        g = E.global_ptr(st, '@_ZTVN4absj13AbsConstraintE')
        return E.padd(g, 16)
    return None


def generalise(E, st, p, name, tags):
    """replace the default contents of the constraint at p by arbitrary contents. Virtual tables and allocation
    functions stay. -> {offset: Seq} of its containers"""
    o = st.wobj(p.obj)
    seqs = {}
    for off, a in sorted(o.abs.items()):
        if isinstance(a, AEmpty):
            k = a.kind
            nm = '%s_%d' % (name, off)
            n = z3.Const('n_' + nm, BV64)
            sq = Seq(nm, k, n=n, key=0 if k in ('set', 'map') else None, ksort=key_sort(a.dem))
            st.assume(z3.ULT(n, bv(A.MAXN)))
            o.abs[off] = ASeq(sq)
            sq.dem = a.dem
            seqs[off] = sq
            ta = targs(a.dem, 'std::' + k)
            t = ta[1] if k == 'map' else ta[0]
            if 'Subschema' in t:
                E.elem_tags[(nm, 0 if k == 'vector' else -1)] = 'Subschema'
        elif isinstance(a, S.ASet):
            nm = '%s_%d' % (name, off)
            n = z3.Const('n_' + nm, BV64)
            sq = Seq(nm, 'set', n=n, key=0, ksort=key_sort(a.dem) if a.dem else Str)
            sq.dem = a.dem
            st.assume(z3.ULT(n, bv(A.MAXN)))
            o.abs[off] = ASeq(sq)
            seqs[off] = sq
        elif isinstance(a, AStr):
            o.abs[off] = AStr(z3.Const('%s_s%d' % (name, off), Str))
    for off, (n, v) in sorted(o.cells.items()):
        if isinstance(v, (FnPtr, Ptr)):
            continue
        nm = '%s_c%d' % (name, off)
        if isinstance(v, Opq):
            o.cells[off] = (n, Opq(z3.Const(nm, BV64), 0, tags.get(off, tags.get('*'))))
        elif isinstance(v, z3.FPRef):
            o.cells[off] = (n, z3.Const(nm, F64))
        elif isinstance(v, z3.BitVecRef):
            if v.size() == 8 and E.is_bool8(v):
                o.cells[off] = (n, z3.If(z3.Const(nm, z3.BoolSort()), bv(1, 8), bv(0, 8)))
            else:
                o.cells[off] = (n, z3.Const(nm, z3.BitVecSort(v.size())))
    return seqs


def setup(E, kindname, results, strict=None, dt=None, target='abs', generalised=True, tags=None):
    """state with a visitor for an arbitrary value and an arbitrary constraint of the given kind"""
    x = Ctx()
    x.E = E
    st = State()
    x.st = st
    A.make_template(E, st)
    x.h = z3.Const('value', BV64)
    x.strict = z3.Const('strictTypes', z3.BoolSort()) if strict is None else strict
    x.dt = z3.Const('strictDateTime', z3.BoolSort()) if dt is None else dt
    if target == 'abs':
        x.target = E.call1(st, 'vp_target', [x.h])
    else:
        x.name = z3.Const('name', Str)
        so = st.new(32, 'mem', name='member name')
        so.abs[0] = AStr(x.name)
        x.target = E.call1(st, 'vp_strtarget', [Ptr(so.id, 0)])
    po = st.new(24, 'mem', name='path')
    x.path0 = z3.Const('path', PathS)
    po.abs[0] = APath(x.path0)
    co = st.new(56, 'mem', name='cache')
    co.abs[0] = A.ACache(z3.Const('cache', z3.ArraySort(Str, z3.BoolSort())))
    x.cache = Ptr(co.id, 0)
    if results:
        x.results = E.call1(st, 'vp_results', [])
        a, q = S.qfind(E, st, x.results)
        x.head0, x.tail0 = z3.Const('head', BV64), z3.Const('tail', BV64)
        x.arr0 = z3.Const('errors', z3.ArraySort(BV64, ErrS))
        st.assume(z3.ULE(x.head0, x.tail0), z3.ULT(x.tail0, bv(1 << 60)))
        E.aset(st, a, AErrQ(x.head0, x.tail0, x.arr0))
    else:
        x.results = NULL
    x.visitor = E.call1(st, 'vp_visitor' if target == 'abs' else 'vp_strvisitor', [x.target, Ptr(po.id, 0), x.strict, x.dt, x.results, x.cache])
    if kindname:
        x.con = E.call1(st, 'vp_new_' + kindname, [])
        if generalised:
            x.seqs = generalise(E, st, x.con, kindname, tags or {'*': 'Subschema'})
    return x


def branches(t):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return branches(t.arg(1)) + branches(t.arg(2))
    return [t]


def decl_is(t, d):
    return z3.is_app(t) and t.decl().eq(d)


def path_duties(x):
    """every value handed to another visitor is handed over with the path that leads to it, and every error carries the path of
    the value or of one of its elements or members"""
    E, h = x.E, x.h
    step = lambda kind, name: S.path_push(x.path0, bv(kind, 32), name)

    def child(path, t):
        """path leads to t, one step below the value"""
        if decl_is(t, A.elem):
            a, i = t.children()
            return z3.And(z3.Or(a == h, A.alen(a) == 0), path == step(0, S.tostr(i)))
        if decl_is(t, A.mval):
            a, i = t.children()
            return z3.And(z3.Or(a == h, A.olen(a) == 0), path == step(1, A.mname(a, i)))
        return z3.BoolVal(False)

    def on_visitor(c, info):
        if 'str' in info:           # a member name is reported at its object
            goal = info['path'] == x.path0
        else:
            t = info['h']
            goal = z3.Or([z3.And(t == h, info['path'] == x.path0)] + [z3.And(t == b, child(info['path'], b)) for b in branches(t)])
        E.oblige(c.st, 'path: a value is validated under the path that leads to it', goal, 'path')

    def on_error(c, path):
        alts = [path == x.path0]
        for b in branches(path):
            if decl_is(b, S.path_push):
                p, kind, name = b.children()
                if decl_is(name, S.tostr):
                    alts.append(z3.And(K(h, A.ARR), path == step(0, name), z3.ULT(name.arg(0), A.alen(h))))
                else:
                    alts.append(z3.And(path == step(1, name), has_member(h, name)))
        E.oblige(c.st, 'path: an error names the value or one of its elements or members', z3.Or(alts), 'path')
    E.on_visitor, E.on_error = on_visitor, on_error


def run_visit(x, kindname):
    E = x.E
    if isinstance(x.results, Ptr) and hasattr(x, 'h'):
        path_duties(x)
    fn = 'vp_visit_' + kindname
    E.fname = 'ValidationVisitor::visit(%sConstraint)' % kindname
    return E.call(x.st, fn, [x.visitor, x.con])


def get(x, name, *a):
    """value of a constraint parameter through the real accessor (initial state)"""
    return x.E.call1(x.st, name, [x.con, *a])


def vseq(E, seq, sub, sort=BV64):
    return lambda i: seq.leaf(sub, sort, i)


def to_b(E, v):
    return v if isinstance(v, z3.BoolRef) else E.to_bool(v)


def check_visit(x, finals, accept, what='verdict', unless=None):
    """obligations on every final state. accept: formula for 'the value is accepted'"""
    E = x.E
    n = 0
    for s in finals:
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', z3.BoolVal(False), 'post', detail=getattr(s.exc, 'ti', ''))
            continue
        r = to_b(E, s.ret)
        E.oblige(s, what, r == accept if unless is None else z3.Or(unless, r == accept), 'post')
        if isinstance(x.results, Ptr):
            a, q = S.qfind(E, s, x.results)
            E.oblige(s, 'errors: an accepted value adds none', z3.Implies(r, q.tail == x.tail0), 'errors')
            E.oblige(s, 'errors: a rejected value adds one', z3.Implies(z3.Not(r), z3.UGT(q.tail, x.tail0)), 'errors')
            j = E.skolem_err
            E.oblige(s, 'errors: earlier ones are kept', z3.And(q.head == x.head0, z3.Implies(z3.ULT(j, x.tail0), z3.Select(q.arr, j) == z3.Select(x.arr0, j))), 'errors')
    return n


def memo_lemmas(one, pair):
    """lemmas for applications of a fold and for (ordered) pairs of them, built once per application"""
    cache = {}

    def lemmas(F, apps):
        out = []
        for a in apps:
            i = a.get_id()
            e = cache.get(i)
            if e is None:
                e = cache[i] = (a, one(a))
            out.extend(e[1])
        if pair:
            ids = [a.get_id() for a in apps]
            for i, a in zip(ids, apps):
                for j, b in zip(ids, apps):
                    if i != j:
                        e = cache.get((i, j))
                        if e is None:
                            e = cache[(i, j)] = (a, b, pair(a, b))
                        out.append(e[2])
        return out
    return lemmas


# ------------------------------------------------------------------ counting folds with proved lemmas
def cnt_fold(E, name, pred, psorts=(), use=True, extra=(), monotone=True):
    """number of k < i with pred(params..., k). The lemmas given to the solver about it are obligations themselves."""
    F = Fold(E, name, list(psorts), BV64, lambda *ps: bv(0),
             lambda *a: a[-1] + z3.If(pred(*a[:-1]), bv(1), bv(0)), kind='cnt')
    F.pred = pred
    big = bv(1 << 40)
    facts = [('count <= index', lambda ps, t, f: z3.ULE(f, t))] + list(extra)
    st = State()
    ps = [z3.Const('p%d' % i, s) for i, s in enumerate(psorts)]
    t = z3.Const('k', BV64)
    f = z3.Const('f_k', BV64)
    old = E.fname
    E.fname = 'lemma on ' + name
    for nm, g in facts:
        E.oblige(st, 'lemma.%s.%s (base)' % (name, nm), g(ps, bv(0), bv(0)), 'lemma')
        s2 = State()
        s2.assume(z3.ULT(t, big), g(ps, t, f), z3.ULE(f, t))
        E.oblige(s2, 'lemma.%s.%s (step)' % (name, nm), g(ps, t + 1, F.step(*ps, t, f)), 'lemma')
    if monotone:
        t1, f1 = z3.Const('k1', BV64), z3.Const('f_k1', BV64)
        s3 = State()
        s3.assume(z3.ULT(t, big), z3.ULE(t1, t), z3.ULE(f1, f), z3.ULE(f, f1 + (t - t1)), z3.ULE(f, t), z3.ULE(f1, t1))
        g = F.step(*ps, t, f)
        E.oblige(s3, 'lemma.%s.monotone (step)' % name, z3.And(z3.ULE(f1, g), z3.ULE(g, f1 + (t + 1 - t1))), 'lemma')
    E.fname = old

    def one(a):
        ch = a.children()
        return [z3.Implies(z3.ULT(ch[-1], big), g(ch[:-1], ch[-1], a)) for nm, g in facts]

    def pair(a, b):
        u, v = a.children()[-1], b.children()[-1]
        return z3.Implies(z3.And(z3.ULT(v, big), z3.ULE(u, v)), z3.And(z3.ULE(a, b), z3.ULE(b, a + (v - u))))
    F.lemmas = memo_lemmas(one, pair if monotone else None)
    if use:
        E.fold_list.append((F, () if not psorts else use))
    return F


def bool_fold(E, name, pred, psorts=(), use=True, conj=True, extra=()):
    """conj: all k < i satisfy pred(params..., k); otherwise: some k < i does"""
    comb = z3.And if conj else z3.Or
    F = Fold(E, name, list(psorts), z3.BoolSort(), lambda *ps: z3.BoolVal(conj), lambda *a: comb(a[-1], pred(*a[:-1])), kind='bool')
    F.pred = pred
    big = bv(1 << 40)
    ps = [z3.Const('p%d' % i, s) for i, s in enumerate(psorts)]
    t, f, f1 = z3.Const('k', BV64), z3.Const('f_k', z3.BoolSort()), z3.Const('f_k1', z3.BoolSort())
    old, E.fname = E.fname, 'lemma on ' + name
    mono = (lambda early, late: z3.Implies(late, early)) if conj else (lambda early, late: z3.Implies(early, late))
    s3 = State()
    s3.assume(mono(f1, f))
    E.oblige(s3, 'lemma.%s.monotone (step)' % name, mono(f1, F.step(*ps, t, f)), 'lemma')
    for nm, g in extra:
        E.oblige(State(), 'lemma.%s.%s (base)' % (name, nm), g(ps, bv(0), z3.BoolVal(conj)), 'lemma')
        s2 = State()
        s2.assume(z3.ULT(t, big), g(ps, t, f))
        E.oblige(s2, 'lemma.%s.%s (step)' % (name, nm), g(ps, t + 1, F.step(*ps, t, f)), 'lemma')
    E.fname = old

    def one(a):
        ch = a.children()
        return [z3.Implies(z3.ULT(ch[-1], big), g(ch[:-1], ch[-1], a)) for nm, g in extra]

    def pair(a, b):
        u, v = a.children()[-1], b.children()[-1]
        return z3.Implies(z3.And(z3.ULT(v, big), z3.ULE(u, v)), mono(a, b))
    F.lemmas = memo_lemmas(one, pair)
    if use:
        E.fold_list.append((F, () if not psorts else use))
    return F


def all_fold(*a, **k):
    return bool_fold(*a, conj=True, **k)


def any_fold(*a, **k):
    return bool_fold(*a, conj=False, **k)


def nonnull(E, seq, sub):
    """type invariant of the constraint classes: stored sub-schema pointers are not null"""
    f = seq.leaf(sub, BV64, bv(0)).decl()
    E.watch(f, lambda *a: [f(*a) != 0])
    E.assumed.add('type invariant: sub-schema pointers held by the constraint are not null')


def mapped_at(seq):
    """offset of the mapped value in the elements of a map with string keys"""
    k = targs(seq.dem, 'std::map')[0]
    return 48 if 'CustomAllocator<char>' in k else 32


def noNUL(E, *decls):
    """names stored in a constraint contain no NUL character"""
    ids = {d.get_id() for d in decls}
    E.nonul = getattr(E, 'nonul', set()) | ids

    def ax(s):
        return [S.ctrunc(s) == s] if s.num_args() and s.decl().get_id() in E.nonul else []
    E.watch(S.ctrunc, ax)


# ------------------------------------------------------------------ what the casts of the weak-types mode give
pd_ok, pd_val, pi_val = S.pd_ok, S.pd_val, S.ipref_val
pi_ok = lambda s: z3.And(S.ipref_ok(s), z3.Not(S.irest(s)))
EMPTY_ARR = z3.Const('empty_array', BV64)
EMPTY_OBJ = z3.Const('empty_object', BV64)
is_ = A.k_is


def K(h, *ks):
    return z3.Or([A.k_is(h, k) for k in ks])


def empty_arr(h):
    return z3.And(K(h, A.ARR), A.alen(h) == 0)


def empty_obj(h):
    return z3.And(K(h, A.OBJ), A.olen(h) == 0)


def integral(d):
    return z3.And(z3.Not(z3.fpIsNaN(d)), z3.Not(z3.fpIsInf(d)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), d), d))


def is_integral(d):
    """finite, integral, and representable as int64"""
    return z3.And(z3.Not(z3.fpIsNaN(d)), z3.Not(z3.fpIsInf(d)), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), d), d),
                  z3.fpGEQ(d, z3.FPVal(-2.0**63, F64)), z3.fpLT(d, z3.FPVal(2.0**63, F64)))


def maybe_array(h):
    return z3.Or(K(h, A.ARR), empty_obj(h))


def maybe_object(h):
    return z3.Or(K(h, A.OBJ), empty_arr(h))


def maybe_string(h):
    return z3.Or(K(h, A.STR, A.BOOL, A.INT_, A.DBL), empty_obj(h), empty_arr(h))


def maybe_double(h):
    return z3.Or(K(h, A.INT_, A.DBL), z3.And(K(h, A.STR), pd_ok(A.vstr(h))))


def maybe_integer(h):
    return z3.Or(K(h, A.INT_), z3.And(K(h, A.DBL), is_integral(A.vdbl(h))), z3.And(K(h, A.STR), pi_ok(A.vstr(h))))


def maybe_bool(E, h):
    return z3.Or(K(h, A.BOOL), z3.And(K(h, A.STR), z3.Or(A.vstr(h) == E.str_lit(b'true'), A.vstr(h) == E.str_lit(b'false'))))


def maybe_null(E, h):
    return z3.Or(K(h, A.NUL), z3.And(K(h, A.STR), A.vstr(h) == E.str_lit(b'')))


def i2d(i):
    return z3.fpSignedToFP(RNE, i, F64)


def as_double(h):
    return z3.If(K(h, A.DBL), A.vdbl(h), z3.If(K(h, A.INT_), i2d(A.vint(h)), pd_val(A.vstr(h))))


def as_string(E, h):
    return z3.If(K(h, A.STR), A.vstr(h),
                 z3.If(K(h, A.BOOL), z3.If(A.vbool(h), E.str_lit(b'true'), E.str_lit(b'false')),
                       z3.If(K(h, A.INT_), S.tostr_signed(A.vint(h)),
                             z3.If(K(h, A.DBL), S.tostrd(A.vdbl(h)), E.str_lit(b'')))))


def items_of(h):
    """array the items keywords look at"""
    return z3.If(K(h, A.ARR), h, EMPTY_ARR)


def arr_len(h):
    return z3.If(K(h, A.ARR), A.alen(h), bv(0))


def obj_len(h):
    return z3.If(K(h, A.OBJ), A.olen(h), bv(0))


def has_member(h, s):
    return z3.And(K(h, A.OBJ), z3.ULT(A.ofind(h, s), A.olen(h)))


def ignored(x, kinds, maybe):
    """the value is none of the keyword's business"""
    return z3.Or(z3.And(x.strict, z3.Not(K(x.h, *kinds))), z3.Not(maybe))
