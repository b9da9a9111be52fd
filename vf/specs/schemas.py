"""Specifications of validateSchema (the verdict of a schema is the conjunction of its constraints) and of the dispatch of
every constraint class to the visit function of its own kind."""
from .base import *
from . import visits

Accepts = A.Accepts


def schema_task(E, module, errors, target):
    x = setup(E, None, errors, target=target)
    st = x.st
    E.verifying = 'validateSchema'
    x.con = E.call1(st, 'vp_new_Subschema', [])
    x.seqs = generalise(E, st, x.con, 'schema', {})
    vec = [q for q in x.seqs.values() if q.kind == 'vector']
    if len(vec) != 1:
        raise Unsupported('layout of Subschema')
    sq = vec[0]
    invalid = to_b(E, E.call1(st, 'vp_alwaysInvalid', [x.con]))
    for sub in (0, 8):
        E.elem_tags[(sq.name, sub)] = 'Constraint'
    off = owned_offset(E)
    nonnull(E, sq, off)
    E.len_terms.append(sq.n)
    if target == 'abs':
        c = all_fold(E, 'accepting_constraints', lambda i: Accepts(sq.leaf(off, BV64, i), x.h, x.strict, x.dt))
    else:
        c = all_fold(E, 'accepting_constraints', lambda i: A.AcceptsStr(sq.leaf(off, BV64, i), x.name, x.strict, x.dt))
    E.fname = 'ValidationVisitor::validateSchema'
    fin = E.call(st, 'vp_validateSchema' if target == 'abs' else 'vp_svalidateSchema', [x.visitor, x.con])
    return check_visit(x, fin, z3.And(z3.Not(invalid), c(sq.n)))


def owned_offset(E):
    """offset of the object pointer in Constraint::OwningPointer, found by running operator* on one"""
    for off in (0, 8):
        st = State()
        o = st.new(16, 'mem', name='owner')
        p = Opq(z3.Const('owned', BV64), 0, 'Constraint')
        st.assume(p.t != 0)
        o.cells[off] = (8, p)
        o.cells[8 - off] = (8, NULL)
        r = E.call1(st, 'vp_owned', [Ptr(o.id, 0)])
        if isinstance(r, Opq) and r.t.eq(p.t):
            return off
    raise Unsupported('layout of OwningPointer')


def validate_task(E, module, how):
    """Validator::validate: the verdict of the schema for the value in the modes the validator was constructed with"""
    weak, perm = z3.Const('weak', z3.BoolSort()), z3.Const('permissive', z3.BoolSort())
    x = setup(E, None, True)
    n = 0
    for results in (x.results, NULL):
        x.results = results
        st0 = x.st.clone()
        name, args = {'both': ('vp_validator', [weak, perm]), 'types': ('vp_validator1', [weak]), 'default': ('vp_validator0', [])}[how]
        want = {'both': (z3.Not(weak), z3.Not(perm)), 'types': (z3.Not(weak), z3.BoolVal(True)), 'default': (z3.BoolVal(True), z3.BoolVal(True))}[how]
        sc = Opq(z3.Const('schema', BV64), 0, 'Subschema')
        st0.assume(sc.t != 0)
        E.fname = 'ValidatorT::ValidatorT'
        for s in E.call(st0, name, args):
            v = s.ret
            o = s.wobj(v.obj)
            for off, a in o.abs.items():
                if isinstance(a, A.ACache):       # what earlier validations left there
                    o.abs[off] = A.ACache(z3.Const('validator_cache', z3.ArraySort(Str, z3.BoolSort())))
            E.fname = 'ValidatorT::validate'
            x.st = s
            n += check_visit(x, E.call(s, 'vp_validate', [v, sc, x.target, x.results]), A.Valid(sc.t, x.h, *want))
    return n


def accept_task(E, module, kind):
    """accept() calls the visitor once, with the constraint itself, through the visit function of its own class, and returns its answer"""
    x = setup(E, kind, False)
    answer = z3.Const('answer_of_visit', z3.BoolSort())

    def visit(c):
        c.st.ghost['visits'] = c.st.ghost.get('visits', ()) + ((params(c.dem)[0], c[0], c[1]),)
        return answer
    E.handlers['valijson::ValidationVisitor::visit'] = visit
    E._hcache.clear()
    E.fname = kind + 'Constraint::accept'
    n = 0
    for s in E.call(x.st, 'vp_accept_' + kind, [x.con, x.visitor]):
        n += 1
        v = s.ghost.get('visits', ())
        right = len(v) == 1 and s.status != 'throw' and v[0][0].split('::')[-1].split(' ')[0] == kind + 'Constraint' and repr(v[0][1]) == repr(x.visitor) and repr(v[0][2]) == repr(x.con)
        E.oblige(s, 'the constraint itself is visited once, as what it is', z3.BoolVal(right), 'post', detail=str(v))
        if s.status != 'throw':
            E.oblige(s, 'the answer of the visitor is returned', to_b(E, s.ret) == answer, 'post')
    return n


def run(module, name, variant):
    E = new_engine(module)
    if name in ('validateSchema', 'validateName'):
        E.nfinals = schema_task(E, module, variant == 'errors', 'abs' if name == 'validateSchema' else 'str')
    elif name == 'validate':
        E.nfinals = validate_task(E, module, variant)
    elif name.startswith('accept'):
        E.nfinals = accept_task(E, module, name[len('accept'):])
    else:
        raise KeyError(name)
    return E
