"""Specifications of the error queue: first in, first out; the JSON Pointer and the context of an error."""
from .base import *
from ..lib_std import strs_nil, strs_push, StrsS, mk_err, err_get, AStrs

SPECS = {}


def spec(f):
    SPECS[f.__name__] = f
    return f


def bytes_of(st):
    """strings whose bytes the code walks through"""
    return [o.info[3].t for o in st.mem.values() if o.kind == 'mem' and o.info and o.info[0] == 'buf' and len(o.info) > 3]


def escape_fold(E):
    """the token in front of byte i with '~' and '/' escaped"""
    ch = z3.Function('schar', z3.BitVecSort(8), Str)
    F = Fold(E, 'escaped', [Str], Str, lambda s: E.str_lit(b''), lambda s, i, a: S.cat(a, z3.If(
        S.sbyte(s, i) == 0x7e, E.str_lit(b'~0'), z3.If(S.sbyte(s, i) == 0x2f, E.str_lit(b'~1'), ch(S.sbyte(s, i))))), kind='val')
    E.fold_list.append((F, lambda E, entry, h, depth: [(s,) for s in bytes_of(entry)]))
    return F


def queue(E):
    E.H = None
    for n in list(E.handlers):
        if n.startswith('valijson::ValidationResults::'):
            del E.handlers[n]
    E.abstract_paths = False
    st = State()
    off = lambda f: E.call1(st, f, []).as_long()
    E.err_offsets = [off('vp_context_at'), off('vp_description_at'), off('vp_pointer_at')]
    r = E.call1(st, 'vp_results', [])
    a, q = S.qfind(E, st, r)
    head, tail, arr = z3.Const('head', BV64), z3.Const('tail', BV64), z3.Const('errors', z3.ArraySort(BV64, ErrS))
    st.assume(z3.ULE(head, tail), z3.ULT(tail, bv(1 << 60)))
    E.aset(st, a, AErrQ(head, tail, arr))
    # records are their three parts
    eq = lambda *p: [f(mk_err(*p)) == x for f, x in zip(err_get, p)]
    E.watch(mk_err, eq)
    for f in err_get:
        E.watch(f, lambda rec: [mk_err(*[g(rec) for g in err_get]) == rec])
    return st, r, q.__class__(head, tail, arr), off


def finals(E, st, fn, args, check):
    n = 0
    for s in E.call(st, fn, args):
        n += 1
        if s.status == 'throw':
            E.oblige(s, 'no exception escapes', z3.BoolVal(False), 'post')
        else:
            check(s)
    return n


def same_queue(E, s, r, head, tail, arr, what):
    a, q = S.qfind(E, s, r)
    j = E.skolem_err
    E.oblige(s, what, z3.And(q.head == head, q.tail == tail, z3.Implies(z3.And(z3.ULE(head, j), z3.ULT(j, tail)), z3.Select(q.arr, j) == z3.Select(arr, j))), 'post')


@spec
def push(E):
    st, r, q, off = queue(E)
    p = E.call1(st, 'vp_path', [])
    seqs = generalise(E, st, p, 'path', {})
    sq = one(seqs)
    E.len_terms.append(sq.n)
    name = lambda i: sq.leaf(off('vp_name_at'), Str, i)
    kind = lambda i: sq.leaf(off('vp_kind_at'), z3.BitVecSort(32), i)
    isobj = E.call1(st, 'vp_object', [])
    st2 = State()
    i = z3.Const('segment', BV64)
    lit = E.str_lit
    esc = escape_fold(E)
    E.templates.append(lambda E, entry, h, L, depth, Cand: [])
    ptr = Fold(E, 'pointer', [], Str, lambda: lit(b''), lambda i, a: S.cat(S.cat(a, lit(b'/')), esc(name(i), S.slen(name(i)))), kind='val')
    con = Fold(E, 'context', [], StrsS, lambda: strs_push(strs_nil, lit(b'<root>')), lambda i, a: strs_push(a, z3.If(
        kind(i) == isobj, S.cat(S.cat(lit(b'["'), name(i)), lit(b'"]')), S.cat(S.cat(lit(b'['), name(i)), lit(b']')))), kind='val')
    E.fold_list += [(ptr, ()), (con, ())]
    d = st.new(32, 'mem', name='description')
    d.abs[0] = AStr(z3.Const('description', Str))
    E.fname = 'ValidationResults::pushError(path, description)'
    want = mk_err(con(sq.n), z3.Const('description', Str), ptr(sq.n))
    j = E.skolem_err
    E.len_fns = [lambda E, entry: [S.slen(s) for s in bytes_of(entry)]]
    n = z3.Const('anything', BV64)
    empty = lit(b'')
    E.watch(S.slen, lambda s: [z3.ULT(S.slen(s), bv(A.MAXN)), (S.slen(s) == 0) == (s == empty)])
    E.watch(S.cat, lambda a, b: [z3.Implies(a == empty, S.cat(a, b) == b), z3.Implies(b == empty, S.cat(a, b) == a)])
    return finals(E, st, 'vp_push', [r, p, Ptr(d.id, 0)], lambda s: same_queue(E, s, r, q.head, q.tail + 1, z3.Store(q.arr, q.tail, want), 'the error is put at the end with its description and the pointer and context of its path'))


def one(seqs):
    if len(seqs) != 1:
        raise Unsupported('layout of a path')
    return list(seqs.values())[0]


def error_object(E, st, nm):
    e = E.call1(st, 'vp_error', [])
    o = st.wobj(e.obj)
    rec = z3.Const(nm, ErrS)
    for k, f, w in zip(E.err_offsets, err_get, (AStrs, AStr, AStr)):
        o.abs[k] = w(f(rec))
    return e, rec


@spec
def pushError(E):
    st, r, q, off = queue(E)
    e, rec = error_object(E, st, 'error')
    E.fname = 'ValidationResults::pushError(error)'
    return finals(E, st, 'vp_pushError', [r, e], lambda s: same_queue(E, s, r, q.head, q.tail + 1, z3.Store(q.arr, q.tail, rec), 'the error is put at the end unchanged'))


@spec
def pop(E):
    st, r, q, off = queue(E)
    e, rec = error_object(E, st, 'previous')
    E.fname = 'ValidationResults::popError'

    def check(s):
        got = to_b(E, s.ret)
        some = q.head != q.tail
        now = S.err_record(E, s, e)
        E.oblige(s, 'true exactly if there was an error', got == some, 'post')
        E.oblige(s, 'the first error is returned unchanged', now == z3.If(some, z3.Select(q.arr, q.head), rec), 'post')
        same_queue(E, s, r, z3.If(some, q.head + 1, q.head), q.tail, q.arr, 'the first error and no other is removed')
    return finals(E, st, 'vp_pop', [r, e], check)


@spec
def num(E):
    st, r, q, off = queue(E)
    E.fname = 'ValidationResults::numErrors'

    def check(s):
        E.oblige(s, 'number pushed minus number popped', s.ret == q.tail - q.head, 'post')
        same_queue(E, s, r, q.head, q.tail, q.arr, 'the queue does not change')
    return finals(E, st, 'vp_num', [r], check)


def run(module, name):
    E = new_engine(module)
    E.fname = name
    E.nfinals = SPECS[name](E)
    return E
