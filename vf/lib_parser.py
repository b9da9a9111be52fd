"""Contracts used by the specifications of the schema parser: sub-schemas, containers of a constraint that is being built."""
import z3
from .engine import Abs, Ptr, Opq, NULL, UNDEF, Str, BV64, bv, fresh, simp, Throw, Agg
from .ir import Unsupported
from .names import params, targs
from .lib_std import contract, gets, H, AStr, is_string, Seq, seq_ptr
from . import lib_adapter as A

# ------------------------------------------------------------------ sub-schemas
sub_of = z3.Function('schema_of', BV64, BV64)                # sub-schema compiled from a node
parses = z3.Function('schema_is_well_formed', BV64, z3.BoolSort())
EMPTY_SCHEMA = z3.Const('empty_schema', BV64)
esc = z3.Function('escaped_token', Str, Str)


@contract('valijson::SchemaParser::makeOrReuseSchema')
def make_or_reuse(c):
    E, st = c.E, c.st
    if E.verifying == 'makeOrReuseSchema':
        return NotImplemented
    # this, schema, root, node, scope, path, ...
    h = A.adapter_handle(E, st, c[3])
    if E.on_schema:
        E.on_schema(c, h)

    def yes(q):
        q.st.assume(sub_of(h) != 0)
        return Opq(sub_of(h), 0, 'Subschema')

    def no(q):
        raise Throw('_ZTISt13runtime_error')
    return c.split(parses(h), yes, no)


@contract('valijson::Schema::emptySubschema')
def empty_subschema(c):
    c.st.assume(EMPTY_SCHEMA != 0)
    return Opq(EMPTY_SCHEMA, 0, 'Subschema')


@contract('valijson::SchemaParser::escapeJsonPointerToken')
def escape_token(c):
    E, st = c.E, c.st
    if E.verifying == 'escapeJsonPointerToken':
        return NotImplemented
    E.aset(st, c.sret, AStr(esc(gets(E, st, c[0]).t)))
    return UNDEF


@contract('std::function::function', 'std::function::~function')
def function_object(c):
    return UNDEF


# ------------------------------------------------------------------ containers that are being built
PtrsS = z3.DeclareSort('Pointers')
ptrs_nil = z3.Const('no_pointers', PtrsS)
ptrs_push = z3.Function('append_pointer', PtrsS, BV64, PtrsS)


class AList(Abs):
    """std::vector of pointers that is only built and copied"""
    def __init__(self, t):
        self.t = t

    def same(self, o):
        return isinstance(o, AList) and self.t.eq(o.t)

    def havoc(self, E, label):
        return AList(fresh('list_' + label, PtrsS))

    def inv_leaves(self):
        return [('', 'val', lambda a: a.t)]


class AMap(Abs):
    """std::map from strings to pointers that is only built and copied; 0 stands for no entry"""
    def __init__(self, arr):
        self.arr = arr

    def same(self, o):
        return isinstance(o, AMap) and self.arr.eq(o.arr)

    def havoc(self, E, label):
        return AMap(fresh('map_' + label, z3.ArraySort(Str, BV64)))

    def inv_leaves(self):
        return [('', 'val', lambda a: a.arr)]


NO_MAP = z3.K(Str, bv(0))


def wrap(name):
    """add a case to an existing contract"""
    old = H[name]

    def d(f):
        def g(c):
            r = f(c) if getattr(c.E, 'build_lists', False) else NotImplemented
            return old(c) if r is NotImplemented else r
        H[name] = g
        return f
    return d


def elem_type(c):
    t = targs(c.dem, 'std::' + ('vector' if 'std::vector<' in c.dem else 'map'))
    return [x.strip() for x in t] if t else ['']


@wrap('std::vector::vector')
def list_ctor(c):
    ps = [p for p in params(c.dem) if 'llocator<' not in p.split('<')[0] + '<']
    if ps or not elem_type(c)[0].endswith('*'):
        return NotImplemented
    c.E.aset(c.st, c[0], AList(ptrs_nil))
    return UNDEF


@wrap('std::vector::push_back')
def list_push(c):
    a = c.E.aget(c.st, c[0], None)
    if not isinstance(a, AList):
        return NotImplemented
    v = c.E.load(c.st, c[1], c.E.PTR)
    c.E.aset(c.st, c[0], AList(ptrs_push(a.t, A.ptr_term(c.E, v))))
    return UNDEF


@wrap('std::map::map')
def map_ctor(c):
    ps = [p for p in params(c.dem) if 'llocator<' not in p.split('<')[0] + '<' and not p.startswith('std::less')]
    if ps or len(elem_type(c)) < 2 or not elem_type(c)[1].endswith('*'):
        return NotImplemented
    c.E.aset(c.st, c[0], AMap(NO_MAP))
    return UNDEF


list_len = z3.Function('list_length', PtrsS, BV64)


def whole(c, a):
    """the list as a sequence that can be iterated; all that is known of its elements is that they are not null"""
    sq = Seq('list', 'vector', (a.t,), n=list_len(a.t))
    c.st.assume(z3.ULT(sq.n, bv(A.MAXN)))
    c.E.elem_tags[('list', 0)] = 'Frozen' if 'FrozenValue' in c.dem else 'Subschema'
    return sq


@wrap('std::vector::begin')
def list_begin(c):
    a = c.E.aget(c.st, c[0], None)
    return seq_ptr(c.E, c.st, whole(c, a), bv(0)) if isinstance(a, AList) else NotImplemented


@wrap('std::vector::end')
def list_end(c):
    a = c.E.aget(c.st, c[0], None)
    if not isinstance(a, AList):
        return NotImplemented
    sq = whole(c, a)
    return seq_ptr(c.E, c.st, sq, sq.n)


def pair_second(c):
    """offset of the second member of the pair a map insertion gets"""
    return 48 if 'CustomAllocator<char>' in elem_type(c)[0] else 32


def map_insert(c):
    E, st = c.E, c.st
    a = E.aget(st, c[0], None)
    if not isinstance(a, AMap):
        return NotImplemented
    k = gets(E, st, c[1]).t
    v = A.ptr_term(E, E.load(st, E.padd(c[1], pair_second(c)), E.PTR))
    E.oblige(st, 'memory.schema pointer is not null', v != 0, 'safety')
    had = z3.Select(a.arr, k) != 0
    E.aset(st, c[0], AMap(simp(z3.If(had, a.arr, z3.Store(a.arr, k, v)))))
    r = Agg([Opq(bv(1), 0, 'mapit'), z3.If(had, bv(0, 8), bv(1, 8))])
    if c.sret is not None:
        E.store(st, c.sret, r.v[0], E.PTR)
        E.store(st, E.padd(c.sret, 8), r.v[1], E.INT(8))
        return UNDEF
    return r


if 'std::map::insert' not in H:
    H['std::map::insert'] = lambda c: NotImplemented
wrap('std::map::insert')(map_insert)


# ------------------------------------------------------------------ populateSchema: what it makes of a schema
class AMade(Abs):
    """constraint made by a function that has its own contract: (kind, key of the ghost record)"""
    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def same(self, o):
        return isinstance(o, AMade) and self.kind == o.kind and all(x.eq(y) for x, y in zip(self.args, o.args))


KEYWORDS = ['Type', 'AllOf', 'AnyOf', 'Const', 'Contains', 'Dependencies', 'MultipleOfInt', 'MultipleOfDouble', 'Enum', 'Extends', 'Format', 'SingularItems',
            'LinearItems', 'Conditional', 'Maximum', 'MaxItems', 'MaxLength', 'MaxProperties', 'Minimum', 'MinItems', 'MinLength', 'MinProperties', 'Not',
            'OneOf', 'Pattern', 'Properties', 'PropertyNames', 'Required', 'RequiredForSelf', 'UniqueItems', 'MaximumExclusive', 'MinimumExclusive']
WITH_SCHEMAS = {'Type', 'AllOf', 'AnyOf', 'Contains', 'Dependencies', 'Extends', 'SingularItems', 'LinearItems', 'Conditional', 'Not', 'OneOf', 'Properties', 'PropertyNames'}
ABSENT = bv((1 << 64) - 1)                  # stands for a keyword that is not given
made_ok = lambda kind: z3.Function('well_formed_' + kind, BV64, BV64, BV64, z3.BoolSort())


def populating(c):
    return c.E.verifying == 'populateSchema'


def handle_or_absent(c, p):
    if isinstance(p, Opq):
        return ABSENT
    return A.adapter_handle(c.E, c.st, p)


def scope_of(c, p):
    E, st = c.E, c.st
    flag = E.load(st, E.padd(p, 32), E.INT(8))
    flag = flag if isinstance(flag, z3.BoolRef) else flag != 0
    try:
        return flag, gets(E, st, p).t
    except Unsupported:
        return flag, None


def maker(kind, name, layout):
    """layout: what the arguments are: n node, p pointer to a node, o scope, t path, s schema, r root, u parent, x anything"""
    old = H.get('valijson::SchemaParser::' + name)

    def f(c):
        if not populating(c):
            return old(c) if old else NotImplemented
        E, st = c.E, c.st
        nodes, texts = [], []
        kd = kind
        for i, l in enumerate(layout):
            a = c[i + 1]
            if l in 'np':
                nodes.append(handle_or_absent(c, a))
            elif l == 't':
                texts.append(gets(E, st, a).t)
            elif l == 'o':
                E.on_scope(c, *scope_of(c, a))
            elif l == 'r':
                E.oblige(st, 'sub-schemas are compiled relative to the same document', A.adapter_handle(E, st, a) == E.pop.rooth, 'where')
            elif l == 's':
                E.oblige(st, 'sub-schemas are added to the same schema', A.ptr_term(E, a) == E.pop.schema.t, 'where')
            elif l == 'u':
                E.oblige(st, 'properties know the schema they belong to', A.ptr_term(E, a) == E.pop.sub.t, 'where')
        if kd in ('RequiredForSelf',):
            E.oblige(st, 'the name is that of the property', texts[0] == E.pop.ownt, 'post')
            texts = []
        while len(nodes) < 3:
            nodes.append(ABSENT)
        # where and with what it was called is remembered in the object
        def yes(q):
            opt = kd in ('RequiredForSelf', 'UniqueItems')
            q.E.aset(q.st, q.sret, AMade(kd, nodes))
            for n, t in enumerate(texts):
                q.st.ghost[('path', kd, n)] = t
            if opt:
                o = q.st.obj(q.sret.obj)
                b = q.E.cast_bool(q.E, nodes[0])
                q.E.store(q.st, q.E.padd(q.sret, o.size - 8 - q.sret.off), z3.If(b, bv(1, 8), bv(0, 8)), q.E.INT(8))
            return UNDEF

        def no(q):
            q.st.ghost['callee failed'] = bv(1)
            raise Throw('_ZTISt13runtime_error')
        return c.split(made_ok(kd)(*nodes), yes, no)
    H['valijson::SchemaParser::' + name] = f


for k in KEYWORDS:
    n = 'make%sConstraint' % k
    lay = 'n'
    if k in WITH_SCHEMAS:
        lay = 'srnotxxx'
    if k == 'LinearItems':
        lay = 'srppottxxx'
    if k == 'Conditional':
        lay = 'srnppotxxx'
    if k == 'Properties':
        lay = 'srpppotttxuxx'
    if k in ('Maximum', 'Minimum'):
        lay = 'np'
    if k == 'RequiredForSelf':
        n, lay = 'makeRequiredConstraintForSelf', 'nt'
    if k.endswith('Exclusive'):
        n = 'make%sConstraintExclusive' % k[:-9]
    maker(k, n, lay)


@contract('valijson::Schema::addConstraintToSubschema')
def add_constraint(c):
    if not populating(c):
        return NotImplemented
    E, st = c.E, c.st
    a = E.aget(st, c[1], None)
    if not isinstance(a, AMade):
        raise Unsupported('constraint that was not made by the parser')
    E.oblige(st, 'constraints are added to the same schema', A.ptr_term(E, c[0]) == E.pop.schema.t, 'post')
    g = st.ghost
    g[('count', a.kind)] = simp(g[('count', a.kind)] + 1)
    for i in range(3):
        g[('node', a.kind, i)] = a.args[i]
    g[('owner', a.kind)] = A.ptr_term(E, c[2])
    return UNDEF


for k in KEYWORDS:
    if not k.endswith('Exclusive'):
        kk = {'Extends': 'AllOf', 'RequiredForSelf': 'Required'}.get(k, k)

        def dtor(c):
            return UNDEF if populating(c) else NotImplemented
        contract('valijson::constraints::%sConstraint::~%sConstraint' % (kk, kk))(dtor)


def setter(name):
    @contract('valijson::Schema::' + name)
    def f(c):
        if not populating(c):
            return NotImplemented
        E, st = c.E, c.st
        E.oblige(st, 'attributes are set on the schema', z3.And(A.ptr_term(E, c[0]) == E.pop.schema.t, A.ptr_term(E, c[1]) == E.pop.sub.t), 'post')
        st.ghost[('set', name)] = simp(st.ghost[('set', name)] + 1)
        if name == 'setAlwaysInvalid':
            v = c[2] if isinstance(c[2], z3.BoolRef) else E.to_bool(c[2])
            E.oblige(st, 'a schema is only ever made to reject everything', v, 'post')
        else:
            st.ghost[('text', name)] = gets(E, st, c[2]).t
        return UNDEF


SETTERS = ['setAlwaysInvalid', 'setSubschemaId', 'setSubschemaTitle', 'setSubschemaDescription']
for k in SETTERS:
    setter(k)

resolved_has = z3.Function('resolved_scope_is_given', z3.BoolSort(), Str, Str, z3.BoolSort())
resolved = z3.Function('resolved_scope', z3.BoolSort(), Str, Str, Str)


@contract('valijson::SchemaParser::resolveId')
def resolve_id(c):
    if not populating(c):
        return NotImplemented
    E, st = c.E, c.st
    flag, t = scope_of(c, c[1])
    t = E.pop.scope if t is None else t
    E.oblige(st, 'ids are resolved in the scope of the parent', z3.And(flag == E.pop.has, z3.Implies(flag, t == E.pop.scope)), 'where')
    i = gets(E, st, c[2]).t
    E.aset(st, c.sret, AStr(resolved(E.pop.has, E.pop.scope, i)))
    E.store(st, E.padd(c.sret, 32), z3.If(resolved_has(E.pop.has, E.pop.scope, i), bv(1, 8), bv(0, 8)), E.INT(8))
    return UNDEF


@contract('std::map::emplace')
def registry_emplace(c):
    if not populating(c):
        return NotImplemented
    E, st = c.E, c.st
    g = st.ghost
    g['registered'] = simp(g['registered'] + 1)
    g['registered key'] = gets(E, st, c[1]).t
    g['registered schema'] = A.ptr_term(E, E.load(st, c[2], E.PTR))
    r = Agg([Opq(bv(1), 0, 'mapit'), bv(1, 8)])
    if c.sret is not None:
        E.store(st, c.sret, r.v[0], E.PTR)
        E.store(st, E.padd(c.sret, 8), r.v[1], E.INT(8))
        return UNDEF
    return r
