"""Verification-condition generator: symbolic execution of LLVM IR, function by function,
with contracts for callees, inlining for uncontracted callees, and cut loops with inferred
(and then checked) invariants."""
import re
import time
import itertools
import hashlib
import z3
from .ir import Module, Unsupported, INT, PTR, DOUBLE
from .names import canon

BV64 = z3.BitVecSort(64)
F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()
Str = z3.DeclareSort('Str')


def bv(n, w=64):
    return z3.BitVecVal(n, w)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class VOff:
    """Offset into the elements of a container: element index and offset inside the element."""
    __slots__ = ('idx', 'sub')

    def __init__(self, idx, sub=0):
        self.idx, self.sub = idx, sub

    def __repr__(self):
        return 'VOff(%s,%s)' % (self.idx, self.sub)


class Opq:
    """Pointer into immutable memory known only through a term (null when the term is 0)."""
    __slots__ = ('t', 'off', 'tag')

    def __init__(self, t, off=0, tag=None):
        self.t, self.off, self.tag = t, off, tag

    def __repr__(self):
        return 'Opq(%s,%s)' % (self.t, self.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)


class Undef:
    def __repr__(self):
        return 'Undef'


class Poison:
    """Value lost at a merge or loop cut; using it is an error of the verifier's reach."""
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


UNDEF = Undef()
NULL = Opq(bv(0))
_cnt = itertools.count()


def fresh(prefix, sort):
    return z3.Const('%s!%d' % (prefix, next(_cnt)), sort)


def is_lit(x):
    return z3.is_bv_value(x)


def simp(x):
    return z3.simplify(x)


def istrue(b):
    return z3.is_true(b)


def isfalse(b):
    return z3.is_false(b)


def zadd(a, b):
    """offset addition, python ints stay ints"""
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int):
        if a == 0:
            return b
        a = bv(a)
    if isinstance(b, int):
        if b == 0:
            return a
        b = bv(b)
    r = simp(a + b)
    if is_lit(r):
        v = r.as_signed_long()
        return v
    return r


def off_term(o):
    return bv(o) if isinstance(o, int) else o


class Abs:
    """Abstract library object stored at an address. Immutable."""
    def leaves(self):
        return []

    def havoc(self, E, label):
        return Poison('changed in loop: ' + type(self).__name__)

    def same(self, o):
        return self is o


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'abs', 'owner', 'info', 'name')

    def __init__(self, id, size=None, kind='mem', info=None, name=''):
        self.id, self.size, self.kind, self.info, self.name = id, size, kind, info, name
        self.cells = {}
        self.abs = {}
        self.owner = None

    def copy(self, owner):
        o = Obj(self.id, self.size, self.kind, self.info, self.name)
        o.cells = dict(self.cells)
        o.abs = dict(self.abs)
        o.owner = owner
        return o


class Frame:
    __slots__ = ('fn', 'env', 'bb', 'prev', 'ip', 'call', 'loops', 'allocas', 'tag')

    def __init__(self, fn, call=None):
        self.fn = fn
        self.env = {}
        self.bb = fn.entry
        self.prev = None
        self.ip = 0
        self.call = call
        self.loops = ()
        self.allocas = ()
        self.tag = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.env, f.bb, f.prev, f.ip, f.call = self.fn, dict(self.env), self.bb, self.prev, self.ip, self.call
        f.loops = self.loops
        f.allocas = self.allocas
        f.tag = self.tag
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'sid', 'ret', 'exc', 'status')
    _ids = itertools.count()

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.ghost = {}
        self.sid = next(State._ids)
        self.ret = None
        self.exc = None
        self.status = 'run'

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() if f is not None else None for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.sid = next(State._ids)
        # both copies must copy objects before writing
        self.sid = next(State._ids)
        s.ret, s.exc, s.status = self.ret, self.exc, self.status
        return s

    def obj(self, id):
        o = self.mem.get(id)
        if o is None:
            raise Unsupported('dead or unknown object %s' % (id,))
        return o

    def wobj(self, id):
        o = self.obj(id)
        if o.owner != self.sid:
            o = o.copy(self.sid)
            self.mem[id] = o
        return o

    def new(self, size=None, kind='mem', info=None, name=''):
        o = Obj(next(_cnt), size, kind, info, name)
        o.owner = self.sid
        self.mem[o.id] = o
        return o

    def assume(self, *cs):
        for c in cs:
            if not istrue(c):
                self.pc.append(c)


def fast_add(s, fs):
    seen = set()
    ctx, sv = s.ctx.ref(), s.solver
    for f in fs:
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        a = f.as_ast()
        k = a.value
        if k not in seen:
            seen.add(k)
            z3.Z3_solver_assert(ctx, sv, a)


class Throw(Exception):
    def __init__(self, exc='std::runtime_error', state=None):
        self.exc = exc


class NoMerge(Exception):
    pass


def simp_or(a, b):
    r = simp(z3.Or(a, b))
    return z3.BoolVal(True) if istrue(r) else r


class Forks(Exception):
    pass


class Obligation:
    __slots__ = ('name', 'kind', 'ok', 'backend', 'time', 'model', 'goal', 'pc', 'fn', 'detail', 'state')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class Fold:
    """F(params..., i): defined by F(..,0)=init, F(..,i+1)=step(..,i,F(..,i))."""
    def __init__(self, E, name, psorts, sort, init, step, lemmas=None, kind=None, length=None):
        self.name, self.init, self.step, self.lemmas, self.kind = name, init, step, lemmas, kind
        self.psorts, self.sort, self.length = psorts, sort, length
        self.d = z3.Function('%s!%d' % (name, next(_cnt)), *psorts, BV64, sort)
        E.folds[self.d.get_id()] = self
        self.E = E

    def __call__(self, *a):
        a = list(a)
        a[-1] = off_term(a[-1])
        return self.d(*a)


class Engine:
    def __init__(self, module, handlers=None or {}, safety=True, log=None):
        self.m = module
        self.handlers = dict(handlers)
        self._hcache = {}
        self.folds = {}
        self.exact = {}
        self.registered = set()
        self.elem_tags = {}
        self.mutable_sets = True
        self.on_push = None
        self.PTR, self.INT, self.DOUBLE = PTR, INT, DOUBLE
        self.ufwatch = {}
        self._axc = {}
        self.axiom_hooks = []       # fn(apps by decl) -> list of axioms
        self.facts = []             # always-true facts (definitions, library axioms)
        self.obligations = []
        self.safety = safety
        self.infer = 0              # >0: no obligations are emitted
        self.fname = '?'
        self.solver_time = {'z3': 0.0, 'cvc5': 0.0}
        self.queries = 0
        self.templates = []         # extra invariant template generators
        self.assumed = set()        # contracts used
        self.inlined = set()
        self._walk = {}
        self.timeout = 8000
        self.max_steps = 400000
        self.steps = 0
        self.max_states = 4000
        self.str_lits = {}
        self.opq_abs = {}
        self.fold_list = []         # (Fold, params) to use in templates
        self.len_terms = []
        self.merge_fns = None       # functions whose branches are joined where they meet
        self.merges = []
        self.slice = None           # names of functions too common to tell what a formula is about
        self._terms = {}
        self._parts = {}
        self.merge_poison = False   # memory that differs too much is given up instead of going on with both states
        self.deadline = None
        self._gl = {}
        self.skip_cleanup = True
        self.loop_log = []
        self.survivors = {}
        self.hint_log = []
        self.contracts_used = set()
        self.tdef = None

    # ------------------------------------------------------------ solving
    def str_lit(self, b):
        """Str constant for a literal byte string"""
        if isinstance(b, str):
            b = b.encode()
        if b not in self.str_lits:
            c = z3.Const('lit_%s' % (''.join(chr(x) if 33 <= x < 127 else '_%02x' % x for x in b)), Str)
            self.str_lits[b] = c
            if len(self.str_lits) > 1:
                self.facts.append(z3.Distinct(*self.str_lits.values()))
        return self.str_lits[b]

    def walk(self, f):
        """applications of fold symbols in f"""
        k = f.get_id()
        r = self._walk.get(k)
        if r is not None:
            return r[1]
        apps = {}
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if x.num_args():
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    di = d.get_id()
                    if di in self.folds or di in self.ufwatch:
                        apps[i] = x
                st.extend(x.children())
        self._walk[k] = (f, apps)
        return apps

    def watch(self, decl, fn):
        """instantiate fn(args)->axioms for every application of decl in a query"""
        self._axc.clear()
        self.ufwatch[decl.get_id()] = (decl, fn)

    def axioms(self, formulas):
        out = []
        done = set()
        work = list(formulas)
        allapps = {}
        rounds = 0
        while work and rounds < 4:
            rounds += 1
            new = {}
            for f in work:
                for i, a in self.walk(f).items():
                    if i not in allapps:
                        allapps[i] = a
                        new[i] = a
            work = []
            for i, a in new.items():
                e = self._axc.get(i)
                if e is None:
                    e = self._axc[i] = self.app_axioms(a)
                di, key, watch, init, step = e[1:]
                if watch is not None:
                    out.extend(watch)
                    work.extend(watch)
                    continue
                if key not in done:
                    done.add(key)
                    out.append(init)
                    if rounds < 3:
                        work.append(init)
                if rounds <= 2:
                    out.append(step)
                    work.append(step)
        # lemmas
        groups = {}
        for i, a in allapps.items():
            e = self._axc.get(i)
            if e is None:
                e = self._axc[i] = self.app_axioms(a)
            if e[2] is None:
                continue
            groups.setdefault(e[2], []).append(a)
        for (di, _), apps in groups.items():
            F = self.folds[di]
            if F.lemmas:
                out.extend(F.lemmas(F, apps))
        for h in self.axiom_hooks:
            out.extend(h(allapps, formulas))
        return out

    def app_axioms(self, a):
        """(a, declaration, parameters, watch axioms, init axiom, step axiom) of one application"""
        di = a.decl().get_id()
        if di in self.ufwatch:
            return a, di, None, list(self.ufwatch[di][1](*a.children())), None, None
        F = self.folds[di]
        ch = a.children()
        t, ps = ch[-1], ch[:-1]
        return (a, di, (di, tuple(p.get_id() for p in ps)), None, F.d(*ps, bv(0)) == F.init(*ps),
                z3.Implies(z3.ULT(t, bv(1 << 62)), F.d(*ps, simp(t + 1)) == F.step(*ps, t, a)))

    def solver(self, fs, timeout=None):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        ax = self.axioms(fs)
        fast_add(s, fs)
        fast_add(s, ax)
        fast_add(s, self.facts)
        return s

    skip_kinds = frozenset()    # obligations that belong to other properties: decided by their checks, left out here
    skipped = 0
    effort = 60000              # resource limit (not time: the same paths are followed on every run) for infeasible paths

    def check(self, fs, timeout=None, effort=None):
        for f in fs:
            if isfalse(f):
                return z3.unsat, None
        t = time.time()
        s = self.solver(fs, timeout)
        if effort:
            s.set('timeout', 60000)
            s.set('rlimit', effort)
        r = s.check()
        self.solver_time['z3'] += time.time() - t
        self.queries += 1
        return r, s

    def terms(self, f):
        """applications in f that say what it is about"""
        k = f.get_id()
        r = self._terms.get(k)
        if r is None:
            out, seen, work = set(), set(), [f]
            while work:
                x = work.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_quantifier(x):
                    work.append(x.body())
                    continue
                n = x.num_args()
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and (n or '!' in d.name()) and d.name() not in self.slice:
                    out.add(i)
                if n:
                    work.extend(x.children())
            r = self._terms[k] = (f, out)
        return r[1]

    def sliced(self, pc, goal):
        """the conjuncts that have something to do with the goal (leaving out others is sound)"""
        want = set(self.terms(goal))
        left = list(range(len(pc)))
        keep = set()
        for _ in range(2):
            new = set()
            for n in left:
                t = self.terms(pc[n])
                if t & want and len(t) < 40:
                    keep.add(n)
                    new |= t
            want |= new
            left = [n for n in left if n not in keep]
        return [pc[n] for n in sorted(keep)]

    def feasible(self, st, cond=None):
        fs = st.pc + ([cond] if cond is not None else [])
        for f in fs:
            if isfalse(f):
                return False
        # an infeasible path that is not recognised costs time only: no effort is spent on it
        t = time.time()
        s = z3.Solver()
        s.set('rlimit', 10 * self.effort)
        fast_add(s, fs)
        r = s.check()
        self.queries += 1
        self.solver_time['z3'] += time.time() - t
        if r == z3.sat:
            r, _ = self.check(fs, effort=self.effort)
        return r != z3.unsat

    def known(self, st, g):
        """is g one of the conjuncts of the path condition?"""
        i = g.get_id()
        for f in st.pc:
            k = f.get_id()
            r = self._parts.get(k)
            if r is None:
                y = simp(f)
                ps = y.children() if z3.is_and(y) else [y]
                r = self._parts[k] = (f, ps, frozenset(x.get_id() for x in ps))
            if i in r[2]:
                return True
        return False

    def valid(self, st, goal, timeout=None):
        g = simp(goal)
        if istrue(g):
            return 'unsat', None, None
        if self.known(st, g):
            return 'unsat', None, None
        if self.slice:
            r, s = self.check(self.sliced(st.pc, g) + [z3.Not(g)], 3)
            if r == z3.unsat:
                return 'unsat', None, s
        r, s = self.check(st.pc + [z3.Not(g)], timeout)
        if r == z3.unsat:
            return 'unsat', None, s
        if r == z3.sat:
            return 'sat', s.model(), s
        return 'unknown', None, s

    def cvc5(self, s):
        """second back end on the SMT-LIB text of a query"""
        import subprocess
        import tempfile
        t = time.time()
        txt = s.to_smt2()
        txt = '(set-logic ALL)\n' + re.sub(r'\(set-info[^\n]*\n', '', txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=20000', '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=30)
            out = r.stdout.strip().split('\n')[0]
        except subprocess.TimeoutExpired:
            out = 'unknown'
        self.solver_time['cvc5'] += time.time() - t
        return out if out in ('sat', 'unsat') else 'unknown'

    def oblige(self, st, name, goal, kind='post', detail=None):
        if self.infer:
            return True
        if kind in self.skip_kinds:
            self.skipped += 1
            return True
        t = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        r, model, s = self.valid(st, goal)
        be = 'z3' if s is not None else 'simplifier'
        if r == 'unknown':
            r2 = self.cvc5(s)
            if r2 != 'unknown':
                r, be = r2, 'cvc5'
            else:
                r, model, s = self.valid(st, goal, self.timeout * 4)
        o = Obligation(name=name, kind=kind, ok=(r == 'unsat'), backend=be, time=time.time() - t, model=model,
                       goal=goal, pc=list(st.pc), fn=self.fname, detail=detail or r, state=st)
        self.obligations.append(o)
        return o.ok

    # ------------------------------------------------------------ memory
    def global_ptr(self, st, name):
        nm = name[1:]
        nm = self.m.aliases.get(nm, nm)
        if nm in self.m.fnidx or nm in self.m.decl:
            return FnPtr(nm)
        g = self.m.glob('@' + nm)
        if g is None:
            raise Unsupported('global ' + name)
        key = ('g', nm)
        if key not in st.mem:
            const, ty, init = g
            o = Obj(key, self.m.size(ty) if ty.k != 'opaque' else None, 'mem', ('global', nm, const), nm)
            o.owner = st.sid
            st.mem[key] = o
            if init is not None:
                self.init_global(st, o, 0, ty, init)
            elif not const or True:
                o.kind = 'sym' if not const else 'ext'
        return Ptr(key, 0)

    def init_global(self, st, o, off, ty, init):
        t = self.m.res(ty)
        k = init[0]
        if k == 'zero':
            if t.k == 'struct':
                for i, f in enumerate(t.a):
                    fo, ft = self.m.field_off(t, i)
                    self.init_global(st, o, off + fo, ft, ('zero',))
            elif t.k == 'arr':
                es = self.m.size(t.b)
                if t.a > 4096:
                    raise Unsupported('big zero array')
                for i in range(t.a):
                    self.init_global(st, o, off + i * es, t.b, ('zero',))
            elif t.k == 'ptr':
                o.cells[off] = (8, NULL)
            elif t.k == 'double':
                o.cells[off] = (8, z3.FPVal(0.0, F64))
            else:
                o.cells[off] = (self.m.size(t), self.const(st, t, ('int', 0)))
        elif k == 'bytes':
            o.info = o.info + (init[1],)
            for i, c in enumerate(init[1]):
                o.cells[off + i] = (1, bv(c, 8))
        elif k == 'agg':
            for i, (ft, fv) in enumerate(init[1]):
                if t.k == 'struct':
                    fo, _ = self.m.field_off(t, i)
                else:
                    fo = i * self.m.size(t.b)
                self.init_global(st, o, off + fo, ft, fv)
        elif k == 'undef':
            pass
        else:
            o.cells[off] = (self.m.size(t), self.const(st, t, init))

    def load(self, st, p, ty):
        t = self.m.res(ty) if ty.k == 'named' else ty
        if t.k == 'struct':
            vs = []
            for i, f in enumerate(t.a):
                fo, ft = self.m.field_off(t, i)
                vs.append(self.load(st, self.padd(p, fo), ft))
            return Agg(vs)
        n = self.m.size(t)
        if isinstance(p, Opq):
            return self.load_opq(st, p, t, n)
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        o = st.obj(p.obj)
        if o.kind not in ('mem', 'sym', 'ext'):
            return self.load_special(st, o, p, t, n)
        off = p.off
        if not isinstance(off, int) or (o.info and o.info[0] == 'buf'):
            return self.load_symoff(st, o, p, t, n)
        if o.size is not None and (off < 0 or off + n > o.size):
            self.oblige(st, 'memory.in-bounds load of %s' % (o.name,), z3.BoolVal(False), 'safety')
            raise Unsupported('out of bounds load')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(c[1], t)
        if c is None and not self.overlap(o, off, n):
            if o.kind == 'sym':
                v = self.fresh_ty('f%d_%s' % (off, o.name), t)
                st.wobj(p.obj).cells[off] = (n, v)
                return v
            if off in o.abs or any(k < off + n and k + 1 > off for k in o.abs):
                raise Unsupported('raw access to an abstract object %s+%d (%s)' % (o.name, off, type(o.abs.get(off)).__name__))
            # uninitialised memory
            return UNDEF
        return self.load_bytes(st, o, off, t, n)

    def overlap(self, o, off, n):
        for k, (sz, _) in o.cells.items():
            if k < off + n and k + sz > off:
                return True
        return False

    def elem_size(self, st, p):
        return getattr(st.obj(p.obj).info, 'esize', None)

    def load_bytes(self, st, o, off, t, n):
        if t.k not in ('int', 'double', 'ptr'):
            raise Unsupported('byte load')
        bs = []
        for i in range(off, off + n):
            got = None
            for k, (sz, v) in o.cells.items():
                if k <= i < k + sz:
                    if isinstance(v, z3.BitVecRef):
                        w = v.size()
                        lo = (i - k) * 8
                        got = simp(z3.Extract(lo + 7, lo, v)) if w > 8 else v
                    elif isinstance(v, z3.FPRef) and sz == 8:
                        vb = z3.fpToIEEEBV(v)
                        lo = (i - k) * 8
                        got = z3.Extract(lo + 7, lo, vb)
                    elif isinstance(v, Undef):
                        got = fresh('undefbyte', z3.BitVecSort(8))
                    elif isinstance(v, z3.BoolRef):
                        got = z3.If(v, bv(1, 8), bv(0, 8))
                    elif isinstance(v, Opq) and is_lit(v.t) and v.t.as_long() == 0 and v.off == 0:
                        got = bv(0, 8)
                    else:
                        raise Unsupported('partial load of %r' % (v,))
                    break
            if got is None:
                if o.kind == 'sym':
                    got = fresh('symbyte', z3.BitVecSort(8))
                    st.wobj(o.id).cells[i] = (1, got)
                else:
                    got = fresh('undefbyte', z3.BitVecSort(8))
            bs.append(got)
        r = bs[0] if n == 1 else simp(z3.Concat(*reversed(bs)))
        if t.k == 'int':
            if t.a == 1:
                return simp(z3.Extract(0, 0, r) == 1)
            if t.a < 8 * n:
                r = z3.Extract(t.a - 1, 0, r)
            return r
        if t.k == 'ptr':
            return Opq(r)
        return z3.fpBVToFP(r, F64)

    def coerce(self, v, t):
        if isinstance(v, Poison):
            raise Unsupported('poisoned value used: ' + v.why)
        if t.k == 'ptr':
            if isinstance(v, z3.BitVecRef):
                return Opq(v)
            return v
        if t.k == 'int':
            if isinstance(v, z3.BitVecRef):
                if t.a == 1:
                    return self.to_bool(v)
                return v
            if isinstance(v, z3.BoolRef):
                return v if t.a == 1 else z3.If(v, bv(1, t.a), bv(0, t.a))
            if isinstance(v, z3.FPRef):
                return z3.fpToIEEEBV(v)
            if isinstance(v, Opq) and v.off == 0:
                return v.t
            return v
        if t.k == 'double':
            if isinstance(v, z3.BitVecRef):
                return z3.fpBVToFP(v, F64)
        return v

    def fresh_ty(self, name, t):
        if t.k == 'int':
            return fresh(name, z3.BoolSort()) if t.a == 1 else fresh(name, z3.BitVecSort(t.a))
        if t.k == 'ptr':
            return Opq(fresh(name, BV64))
        if t.k == 'double':
            return fresh(name, F64)
        if t.k == 'float':
            return fresh(name, F32)
        raise Unsupported('fresh value of type ' + t.k)

    def load_opq(self, st, p, t, n):
        if is_lit(p.t) and p.t.as_long() == 0:
            self.oblige(st, 'memory.null dereference', z3.BoolVal(False), 'safety')
            raise Unsupported('null dereference')
        if not isinstance(p.off, int):
            raise Unsupported('symbolic offset into opaque object')
        self.oblige(st, 'memory.null dereference', p.t != 0, 'safety')
        if t.k == 'int':
            s = z3.BitVecSort(t.a) if t.a > 1 else z3.BoolSort()
        elif t.k == 'ptr':
            s = BV64
        elif t.k == 'double':
            s = F64
        else:
            raise Unsupported('opaque load')
        h = self.opaque_load_hook(st, p, t, n) if self.opaque_load_hook else None
        if h is not None:
            return h
        f = z3.Function('ld_%d_%s%d' % (p.off, t.k, n), BV64, s)
        v = f(p.t)
        return Opq(v) if t.k == 'ptr' else v

    opaque_load_hook = None
    special_load_hook = None

    def load_special(self, st, o, p, t, n):
        if self.special_load_hook:
            r = self.special_load_hook(st, o, p, t, n)
            if r is not None:
                return r
        raise Unsupported('load from %s object' % o.kind)

    def load_symoff(self, st, o, p, t, n):
        if o.kind == 'mem' and o.info and o.info[0] == 'buf':
            # byte buffer: info = ('buf', index -> byte, length term)
            off = off_term(p.off)
            self.oblige(st, 'memory.in-bounds read of %s' % o.name,
                        z3.And(z3.ULT(off, o.info[2]), z3.ULE(off, off + (n - 1)), z3.ULT(off + (n - 1), o.info[2])), 'safety')
            bs = [o.info[1](simp(off + i)) for i in range(n)]
            return bs[0] if n == 1 else z3.Concat(*reversed(bs))
        raise Unsupported('load at symbolic offset of %s' % o.name)

    def store(self, st, p, v, ty):
        t = self.m.res(ty) if ty.k == 'named' else ty
        if t.k == 'struct':
            for i, f in enumerate(t.a):
                fo, ft = self.m.field_off(t, i)
                x = UNDEF if isinstance(v, Undef) else v.v[i]
                self.store(st, self.padd(p, fo), x, ft)
            return
        n = self.m.size(t)
        if isinstance(v, z3.BoolRef) and t.k == 'int' and t.a == 1:
            v = z3.If(v, bv(1, 8), bv(0, 8))
        if not isinstance(p, Ptr):
            if self.opaque_store_hook and self.opaque_store_hook(st, p, v, t, n):
                return
            raise Unsupported('store through %r' % (p,))
        o = st.obj(p.obj)
        if o.kind not in ('mem', 'sym'):
            if self.special_store_hook and self.special_store_hook(st, o, p, v, t, n):
                return
            raise Unsupported('store to %s object' % o.kind)
        if not isinstance(p.off, int):
            raise Unsupported('store at symbolic offset')
        if o.size is not None and (p.off < 0 or p.off + n > o.size):
            self.oblige(st, 'memory.in-bounds store to %s' % (o.name,), z3.BoolVal(False), 'safety')
            raise Unsupported('out of bounds store')
        if o.info and o.info[0] == 'global' and o.info[2]:
            raise Unsupported('store to a constant global')
        o = st.wobj(p.obj)
        self.kill(o, p.off, n)
        o.cells[p.off] = (n, v)

    opaque_store_hook = None
    special_store_hook = None

    def kill(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return
        for k in [k for k, (sz, _) in o.cells.items() if k < off + n and k + sz > off]:
            sz, v = o.cells.pop(k)
            if k < off or k + sz > off + n:
                if isinstance(v, z3.BitVecRef):
                    for i in range(k, k + sz):
                        if not (off <= i < off + n):
                            lo = (i - k) * 8
                            o.cells[i] = (1, simp(z3.Extract(lo + 7, lo, v)))
                elif isinstance(v, Undef):
                    pass
                else:
                    raise Unsupported('partial overwrite')
        for k in [k for k in o.abs if off <= k < off + n]:
            del o.abs[k]

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        if not isinstance(dst, Ptr) or not isinstance(dst.off, int):
            raise Unsupported('memcpy destination %r' % (dst,))
        if isinstance(src, Opq):
            raise Unsupported('memcpy from opaque memory')
        so = st.obj(src.obj)
        if so.kind not in ('mem', 'sym') or not isinstance(src.off, int):
            raise Unsupported('memcpy source')
        cells = {k: c for k, c in so.cells.items() if src.off <= k < src.off + n}
        absv = {k: a for k, a in so.abs.items() if src.off <= k < src.off + n}
        if so.kind == 'sym':
            covered = sum(c[0] for c in cells.values())
            if covered < n:
                # materialise the missing bytes as 8-byte words where possible
                k = src.off
                w = st.wobj(src.obj)
                while k < src.off + n:
                    if k in cells:
                        k += cells[k][0]
                        continue
                    sz = 8 if (k % 8 == 0 and k + 8 <= src.off + n and not self.overlap(w, k, 8)) else 1
                    c = (sz, fresh('m', z3.BitVecSort(8 * sz)))
                    w.cells[k] = c
                    cells[k] = c
                    k += sz
        do = st.wobj(dst.obj)
        self.kill(do, dst.off, n)
        for k in [k for k, (sz, _) in do.cells.items() if dst.off <= k < dst.off + n]:
            del do.cells[k]
        for k, (sz, v) in cells.items():
            if k + sz > src.off + n:
                if isinstance(v, z3.BitVecRef):
                    for i in range(k, src.off + n):
                        lo = (i - k) * 8
                        do.cells[dst.off + i - src.off] = (1, simp(z3.Extract(lo + 7, lo, v)))
                    continue
                raise Unsupported('partial memcpy')
            do.cells[dst.off + k - src.off] = (sz, v)
        for k, a in absv.items():
            do.abs[dst.off + k - src.off] = a

    def padd(self, p, d):
        if isinstance(p, Ptr):
            if isinstance(p.off, VOff):
                if isinstance(d, int):
                    return Ptr(p.obj, VOff(p.off.idx, p.off.sub + d))
                raise Unsupported('symbolic offset inside an element')
            return Ptr(p.obj, zadd(p.off, d))
        if isinstance(p, Opq):
            if isinstance(d, int) and d == 0:
                return p
            return Opq(p.t, zadd(p.off, d), p.tag if d == 0 else None)
        raise Unsupported('pointer arithmetic on %r' % (p,))

    # abstract objects -----------------------------------------------------
    def aget(self, st, p, cls=None, make=None):
        """abstract value at address p; make(E, st, p) builds one for symbolic memory"""
        if isinstance(p, Opq):
            key = (p.t.get_id(), p.off)
            a = self.opq_abs.get(key)
            if a is None:
                if make is None:
                    raise Unsupported('abstract value in opaque memory')
                a = (p.t, make(self, st, p))
                self.opq_abs[key] = a
            a = a[1]
        else:
            o = st.obj(p.obj)
            if o.kind not in ('mem', 'sym', 'ext'):
                a = self.special_abs_hook(st, o, p, cls, make) if self.special_abs_hook else None
                if a is None:
                    raise Unsupported('abstract value in %s object' % o.kind)
                return a
            a = o.abs.get(p.off)
            if a is None:
                if o.kind == 'sym' and make is not None:
                    a = make(self, st, p)
                    st.wobj(p.obj).abs[p.off] = a
                else:
                    raise Unsupported('no abstract value at %s+%s%s' % (o.name, p.off, '' if cls is None else ' (%s)' % cls.__name__))
        if isinstance(a, Poison):
            raise Unsupported('poisoned abstract value: ' + a.why)
        if cls is not None and not isinstance(a, cls):
            raise Unsupported('abstract value %s where %s expected' % (type(a).__name__, cls.__name__))
        return a

    special_abs_hook = None
    special_aset_hook = None

    def aset(self, st, p, a):
        if not isinstance(p, Ptr):
            raise Unsupported('abstract store to opaque memory')
        o = st.obj(p.obj)
        if o.kind not in ('mem', 'sym'):
            if self.special_aset_hook and self.special_aset_hook(st, o, p, a):
                return
            raise Unsupported('abstract store to %s object' % o.kind)
        if not isinstance(p.off, int):
            raise Unsupported('abstract store at symbolic offset')
        st.wobj(p.obj).abs[p.off] = a

    # ------------------------------------------------------------ operands
    def const(self, st, t, op):
        k = op[0]
        if k == 'int':
            if t.k == 'int':
                if t.a == 1:
                    return z3.BoolVal(op[1] & 1 == 1)
                return bv(op[1], t.a)
            raise Unsupported('int const of ' + t.k)
        if k == 'fp':
            return z3.FPVal(op[1], F64 if t.k == 'double' else F32)
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            r = self.m.res(t)
            if r.k == 'struct':
                return Agg([self.const(st, f, ('zero',)) for f in r.a])
            if r.k == 'int':
                return self.const(st, r, ('int', 0))
            if r.k == 'ptr':
                return NULL
            if r.k == 'double':
                return z3.FPVal(0.0, F64)
            raise Unsupported('zeroinitializer')
        if k == 'glob':
            return self.global_ptr(st, op[1])
        if k == 'agg':
            return Agg([self.const(st, a, b) for a, b in op[1]])
        if k == 'expr':
            if op[1] == 'gep':
                return self.gep(st, op[2], [(a, self.const(st, a, b)) for a, b in op[3]])
            if op[1] in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.const(st, op[2], op[3])
            if op[1] == 'sub':
                raise Unsupported('constant sub')
        raise Unsupported('constant %r' % (op[:2],))

    def val(self, st, fr, t, op):
        if op[0] == 'loc':
            v = fr.env.get(op[1])
            if v is None:
                raise Unsupported('undefined value %s in %s' % (op[1], fr.fn.dem[:80]))
            if isinstance(v, Poison):
                raise Unsupported('poisoned value used: ' + v.why)
            if isinstance(v, Undef):
                if t.k in ('int', 'ptr', 'double', 'float'):
                    return UNDEF
            return v
        return self.const(st, t, op)

    def gep(self, st, bty, args):
        p = args[0][1]
        if isinstance(p, (Undef, Poison)):
            raise Unsupported('gep on undefined pointer')
        t = bty
        off = 0
        if isinstance(p, Ptr) and isinstance(p.off, VOff) and len(args) == 2:
            # iterator arithmetic: whole elements
            iv = args[1][1]
            if iv.size() < 64:
                iv = z3.SignExt(64 - iv.size(), iv)
            sz = self.m.size(t)
            es = self.elem_size(st, p)
            iv = simp(iv)
            if sz == es:
                return Ptr(p.obj, VOff(simp(p.off.idx + iv), p.off.sub))
            if is_lit(iv) and es and sz < es:
                d = iv.as_signed_long() * sz
                if 0 <= p.off.sub + d < es:
                    return Ptr(p.obj, VOff(p.off.idx, p.off.sub + d))
                q, r = divmod(p.off.sub + d, es)
                return Ptr(p.obj, VOff(simp(p.off.idx + q), r))
            if es is None and sz == 1 and is_lit(iv):       # a member of the element, not another element
                return Ptr(p.obj, VOff(p.off.idx, p.off.sub + iv.as_signed_long()))
            if es is None:
                return Ptr(p.obj, VOff(simp(p.off.idx + iv), p.off.sub))
            raise Unsupported('element arithmetic')
        for n, (it, iv) in enumerate(args[1:]):
            if n == 0:
                sz = self.m.size(t)
            else:
                r = self.m.res(t)
                if r.k == 'struct':
                    i = iv.as_long()
                    fo, t = self.m.field_off(t, i)
                    off = zadd(off, fo)
                    continue
                if r.k not in ('arr', 'vec'):
                    raise Unsupported('gep into ' + r.k)
                t = r.b
                sz = self.m.size(t)
            if not isinstance(iv, z3.BitVecRef):
                raise Unsupported('gep index %r' % (iv,))
            if iv.size() < 64:
                iv = z3.SignExt(64 - iv.size(), iv)
            iv = simp(iv)
            if is_lit(iv):
                off = zadd(off, iv.as_signed_long() * sz)
            else:
                off = zadd(off, simp(iv * sz) if sz != 1 else iv)
        if isinstance(p, FnPtr):
            return p
        return self.padd(p, off)

    @staticmethod
    def to_bool(v):
        if isinstance(v, z3.BoolRef):
            return v
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            if is_lit(a) and is_lit(b):
                a, b = a.as_long() & 1, b.as_long() & 1
                if a == 1 and b == 0:
                    return c
                if a == 0 and b == 1:
                    return z3.Not(c)
        return simp(z3.Extract(0, 0, v) == 1)

    def defv(self, v, t):
        """materialise undef"""
        if isinstance(v, Undef):
            return self.fresh_ty('undef', self.m.res(t))
        return v

    # ------------------------------------------------------------ execution
    def start(self, st, name, args):
        f = self.m.fn(name)
        if f is None:
            raise Unsupported('no body for ' + self.m.dem.get(name, name))
        fr = Frame(f)
        for (t, nm, at), a in zip(f.params, args):
            fr.env[nm] = a
        st.frames.append(fr)
        st.status = 'run'
        return st

    def call(self, st, name, args):
        """Run a function to completion from spec code. -> list of final states (status ret/throw)."""
        h = self.handler(name)
        if h is not None:
            r = self._call_handler_spec(st, name, h, args)
            if r is not None:
                return r
        st.frames.append(None)      # barrier
        self.start(st, name, args)
        res = self.explore([st], barrier=len(st.frames) - 2)
        for s in res:
            s.frames.pop()          # barrier
        return res

    def _call_handler_spec(self, st, name, h, args):
        out = []
        res = self.invoke_handler(st, h, None, args, self.m.dem.get(name, name))
        if res is None:
            return None
        for s, kind, v in res:
            s.status = kind
            if kind == 'ret':
                s.ret = v
            else:
                s.exc = v
            out.append(s)
        return out

    def call1(self, st, name, args):
        """call from spec code that must have exactly one, normal, outcome (st is updated in place)"""
        r = self.call(st, name, args)
        if len(r) != 1 or r[0].status != 'ret':
            raise Unsupported('spec call of %s has %d outcomes %s' % (self.m.dem[name], len(r), [x.status for x in r]))
        s = r[0]
        if s is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(s, a))
        return st.ret

    def handler(self, name):
        if name in self._hcache:
            return self._hcache[name]
        dem = self.m.dem.get(name, name)
        h = self.handlers.get(canon(dem))
        self._hcache[name] = h
        return h

    def explore(self, states, barrier=-1, until=None):
        """Run until the frame above `barrier` returns. until: loop context -> collect back-edge states.
        -> finals (or back states when until is given)"""
        work = list(states)
        finals = []
        backs = []
        while work:
            st = work.pop()
            if len(work) + len(finals) + len(backs) > self.max_states:
                raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of the function exceeded')
            try:
                r = self.run(st, barrier, until)
            except Unsupported as e:
                if self.infer:
                    self.loop_log.append('infer: path dropped: %s' % e)
                    continue
                raise
            for kind, s in r:
                if kind == 'run':
                    work.append(s)
                elif kind == 'final':
                    finals.append(s)
                elif kind == 'back':
                    backs.append(s)
        return backs if until is not None else finals

    def run(self, st, barrier, until):
        """Run one state until it forks, ends, or hits a loop back edge."""
        while True:
            fr = st.frames[-1]
            ins = self.m.ins(fr.fn, fr.bb)[fr.ip]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step budget exceeded')
            r = self.step(st, fr, ins, barrier, until)
            if r is not None:
                return r

    def set(self, fr, ins, v):
        fr.env[ins.dst] = v
        fr.ip += 1

    def step(self, st, fr, ins, barrier, until):
        op = ins.op
        if op == 'load':
            p = self.val(st, fr, PTR, ins.a)
            self.set(fr, ins, self.load(st, p, ins.ty))
        elif op == 'store':
            v = self.val(st, fr, ins.ty, ins.a)
            p = self.val(st, fr, PTR, ins.b)
            self.store(st, p, v, ins.ty)
            fr.ip += 1
        elif op == 'gep':
            args = [(t, self.val(st, fr, t, o)) for t, o in ins.a]
            self.set(fr, ins, self.gep(st, ins.ty, args))
        elif op == 'alloca':
            n = self.const(st, INT(32), ins.a)
            o = st.new(self.m.size(ins.ty) * n.as_long(), name=ins.dst)
            fr.allocas = fr.allocas + (o.id,)
            self.set(fr, ins, Ptr(o.id, 0))
        elif op in ('call', 'invoke'):
            return self.do_call(st, fr, ins, barrier, until)
        elif op == 'jmp':
            return self.jump(st, ins.a, barrier, until)
        elif op == 'br':
            c = self.val(st, fr, INT(1), ins.a)
            if isinstance(c, Undef):
                self.oblige(st, 'memory.branch on an uninitialised value', z3.BoolVal(False), 'safety')
                c = fresh('undef', z3.BoolSort())
            c = simp(c)
            if istrue(c):
                return self.jump(st, ins.b, barrier, until)
            if isfalse(c):
                return self.jump(st, ins.c, barrier, until)
            return self.fork_jump(st, [(c, ins.b), (simp(z3.Not(c)), ins.c)], barrier, until)
        elif op == 'switch':
            v = self.defv(self.val(st, fr, ins.ty, ins.a), ins.ty)
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, bv(1, 1), bv(0, 1))
            opts = {}
            neg = []
            for k, lab in ins.c:
                c = v == bv(k, v.size())
                neg.append(z3.Not(c))
                opts.setdefault(lab, []).append(c)
            if ins.b in opts:
                d = z3.Or(z3.And(neg), *opts.pop(ins.b))
            else:
                d = z3.And(neg)
            ch = [(simp(z3.Or(cs) if len(cs) > 1 else cs[0]), lab) for lab, cs in opts.items()] + [(simp(d), ins.b)]
            ch = [(c, l) for c, l in ch if not isfalse(c)]
            if len(ch) == 1:
                return self.jump(st, ch[0][1], barrier, until)
            return self.fork_jump(st, ch, barrier, until)
        elif op == 'ret':
            v = None
            if ins.ty is not None:
                v = self.val(st, fr, ins.ty, ins.a)
            return self.do_ret(st, v, barrier, until)
        elif op == 'select':
            c = self.val(st, fr, ins.x, ins.a)
            if isinstance(c, Undef):
                c = fresh('undef', z3.BoolSort())
            c = simp(c)
            if istrue(c) or isfalse(c):
                self.set(fr, ins, self.val(st, fr, ins.ty, ins.b if istrue(c) else ins.c))
                return None
            a = self.val(st, fr, ins.ty, ins.b)
            b = self.val(st, fr, ins.ty, ins.c)
            if ins.ty.k in ('int', 'double', 'float') and isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                self.set(fr, ins, simp(z3.If(c, a, b)) if ins.ty.k == 'int' else z3.If(c, a, b))
                return None
            if isinstance(a, Opq) and isinstance(b, Opq) and a.off == 0 and b.off == 0:
                self.set(fr, ins, Opq(z3.If(c, a.t, b.t)))
                return None
            out = []
            for cc, v in ((c, a), (simp(z3.Not(c)), b)):
                if self.feasible(st, cc):
                    s = st.clone()
                    s.assume(cc)
                    self.set(s.frames[-1], ins, v)
                    out.append(('run', s))
            return out
        elif op == 'icmp':
            a = self.val(st, fr, ins.ty, ins.a)
            b = self.val(st, fr, ins.ty, ins.b)
            self.set(fr, ins, self.icmp(st, ins.c, a, b, ins.ty))
        elif op == 'fcmp':
            a = self.defv(self.val(st, fr, ins.ty, ins.a), ins.ty)
            b = self.defv(self.val(st, fr, ins.ty, ins.b), ins.ty)
            self.set(fr, ins, self.fcmp(ins.c, a, b))
        elif op in BIN:
            a = self.val(st, fr, ins.ty, ins.a)
            b = self.val(st, fr, ins.ty, ins.b)
            self.set(fr, ins, self.binop(st, op, ins.x, a, b, ins.ty))
        elif op == 'fneg':
            self.set(fr, ins, z3.fpNeg(self.val(st, fr, ins.ty, ins.a)))
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
            a = self.val(st, fr, ins.b, ins.a)
            self.set(fr, ins, self.cast(st, op, a, ins.b, ins.ty))
        elif op == 'extractvalue':
            v = self.val(st, fr, ins.ty, ins.a)
            for i in ins.b:
                v = UNDEF if isinstance(v, Undef) else v.v[i]
            self.set(fr, ins, v)
        elif op == 'insertvalue':
            v = self.val(st, fr, ins.ty, ins.a)
            ft = ins.ty
            for i in ins.c:
                r = self.m.res(ft)
                ft = r.a[i] if r.k == 'struct' else r.b
            b = self.val(st, fr, self.m.res(ft), ins.b)

            def upd(v, ty, idx):
                r = self.m.res(ty)
                n = len(r.a) if r.k == 'struct' else r.a
                vs = [UNDEF] * n if isinstance(v, Undef) else list(v.v)
                if len(idx) == 1:
                    vs[idx[0]] = b
                else:
                    vs[idx[0]] = upd(vs[idx[0]], r.a[idx[0]] if r.k == 'struct' else r.b, idx[1:])
                return Agg(vs)
            self.set(fr, ins, upd(v, ins.ty, ins.c))
        elif op == 'freeze':
            v = self.val(st, fr, ins.ty, ins.a)
            self.set(fr, ins, self.defv(v, ins.ty))
        elif op == 'nop':
            fr.ip += 1
        elif op == 'landingpad':
            exc = st.exc
            sel = 0
            for i, (k, o) in enumerate(ins.a):
                if k == 'catch':
                    ti = None if o[0] == 'null' else o[1][1:]
                    if ti is None or self.exc_matches(exc, ti):
                        sel = self.typeid(ti)
                        break
            self.set(fr, ins, Agg([exc, bv(sel, 32)]))
        elif op == 'resume':
            return self.unwind(st, st.exc, barrier, until)
        elif op == 'unreachable':
            if self.infer:
                return []
            self.oblige(st, 'control.unreachable', z3.BoolVal(False), 'safety')
            return []
        else:
            raise Unsupported('instruction ' + str(ins.x or op))
        return None

    # exceptions
    _tids = {}

    def typeid(self, ti):
        return self._tids.setdefault(ti, len(self._tids) + 1)

    STD_BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
                 '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt9bad_alloc': ['_ZTISt9exception']}

    def exc_matches(self, exc, ti):
        e = exc.ti if isinstance(exc, ExcObj) else None
        if e is None:
            raise Unsupported('catch of unknown exception type')
        return e == ti or ti in self.STD_BASES.get(e, [])

    def unwind(self, st, exc, barrier, until):
        st.exc = exc
        while True:
            fr = st.frames.pop()
            if fr.loops and any(c is until for _, c in fr.loops):
                return []       # leaves the loop under inference
            if len(st.frames) - 1 == barrier:
                st.status = 'throw'
                return [('final', st)]
            c = fr.call
            caller = st.frames[-1]
            if c.op == 'invoke':
                lp = self.m.ins(caller.fn, c.x[1])
                pad = next(i for i in lp if i.op == 'landingpad')
                if pad.a or not self.skip_cleanup:
                    return self.jump(st, c.x[1], barrier, until)

    def throw_here(self, st, exc, ins, barrier, until):
        """exception raised by a contract call in the current frame"""
        fr = st.frames[-1]
        if ins.op == 'invoke':
            lp = self.m.ins(fr.fn, ins.x[1])
            pad = next(i for i in lp if i.op == 'landingpad')
            if pad.a or not self.skip_cleanup:
                st.exc = exc
                return self.jump(st, ins.x[1], barrier, until)
        return self.unwind(st, exc, barrier, until)

    # calls
    def do_call(self, st, fr, ins, barrier, until):
        callee = ins.a
        if callee[0] == 'loc':
            v = self.val(st, fr, PTR, callee)
            if not isinstance(v, FnPtr):
                r = self.indirect_hook(st, fr, ins, v) if self.indirect_hook else None
                if r is None:
                    raise Unsupported('indirect call through %r' % (v,))
                v = r
            name = v.name
        else:
            name = callee[1][1:]
            name = self.m.aliases.get(name, name)
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name, barrier, until)
        args = [self.val(st, fr, t, o) for t, o, _ in ins.b]
        h = self.handler(name)
        res = None
        if h is not None:
            res = self.invoke_handler(st, h, ins, args, self.m.dem.get(name, name))
        if res is None:
            if name in self.m.fnidx:
                f = self.m.fn(name)
                if len(st.frames) > 60:
                    raise Unsupported('recursion without a contract: ' + f.dem[:100])
                for g in st.frames:
                    if g is not None and g.fn is f and f.dem.startswith('valijson') and not self.allow_rec(f):
                        n = sum(1 for g2 in st.frames if g2 is not None and g2.fn is f)
                        if n > 3:
                            raise Unsupported('recursion without a contract: ' + f.dem[:100])
                self.inlined.add(name)
                nf = Frame(f, ins)
                for (t, nm, at), a in zip(f.params, args):
                    nf.env[nm] = a
                st.frames.append(nf)
                if f.entry in self.m.loops(f):
                    raise Unsupported('entry block is a loop header')
                return None
            raise Unsupported('no contract for external function %s' % self.m.dem.get(name, name)[:200])
        out = []
        for s, kind, v in res:
            if kind == 'ret':
                f2 = s.frames[-1]
                if ins.dst is not None:
                    if v is None:
                        raise Unsupported('contract without value: ' + self.m.dem.get(name, name)[:120])
                    f2.env[ins.dst] = v
                if ins.op == 'invoke':
                    r = self.jump(s, ins.x[0], barrier, until)
                    if r is None:
                        out.append(('run', s))
                    else:
                        out.extend(r)
                else:
                    f2.ip += 1
                    out.append(('run', s))
            elif kind == 'throw':
                r = self.throw_here(s, v, ins, barrier, until)
                if r is None:
                    out.append(('run', s))
                else:
                    out.extend(r)
        if len(out) == 1 and out[0][0] == 'run' and out[0][1] is st:
            return None
        return out

    def allow_rec(self, f):
        return False

    indirect_hook = None

    def invoke_handler(self, st, h, ins, args, dem):
        self.contracts_used.add(dem)
        """-> list of (state, 'ret'|'throw', value)"""
        c = Call(self, st, ins, args, dem)
        try:
            r = h(c)
        except Throw as t:
            return [(c.st, 'throw', ExcObj(t.exc))]
        if r is NotImplemented:
            return None
        self.assumed.add(canon(dem))
        if isinstance(r, Multi):
            return r.items
        return [(c.st, 'ret', r)]

    def do_ret(self, st, v, barrier, until):
        fr = st.frames.pop()
        if fr.loops and any(c is until for _, c in fr.loops):
            return []
        for a in fr.allocas:
            st.mem.pop(a, None)
        if len(st.frames) - 1 == barrier:
            st.status = 'ret'
            st.ret = v
            return [('final', st)]
        c = fr.call
        caller = st.frames[-1]
        if c.dst is not None:
            caller.env[c.dst] = v
        if c.op == 'invoke':
            return self.jump(st, c.x[0], barrier, until)
        caller.ip += 1
        return None

    def fork_jump(self, st, choices, barrier, until):
        out = []
        live = []
        for c, lab in choices:
            if self.feasible(st, c):
                live.append((c, lab))
        if len(live) > 1 and self.merge_fns is not None:
            fr = st.frames[-1]
            if self.merge_fns(fr.fn):
                join = self.m.joins(fr.fn).get(fr.bb)
                if join is not None and join not in self.m.loops(fr.fn) and not any(join not in self.m.loops(fr.fn)[h] for h, _ in fr.loops):
                    return self.fork_merge(st, live, join, barrier, until)
        for n, (c, lab) in enumerate(live):
            s = st if n == len(live) - 1 else st.clone()
            s.assume(c)
            r = self.jump(s, lab, barrier, until)
            if r is None:
                out.append(('run', s))
            else:
                out.extend(r)
        return out

    # ------------------------------------------------------------ control flow and loops
    def assign_phis(self, st, fr, lab):
        prev = fr.bb
        blk = self.m.ins(fr.fn, lab)
        new = {}
        n = 0
        for i in blk:
            if i.op != 'phi':
                break
            n += 1
            for v, l in i.a:
                if l == prev:
                    if v[0] == 'loc':
                        x = fr.env.get(v[1], Poison('undefined phi input'))
                    else:
                        x = self.const(st, i.ty, v)
                    if isinstance(x, Undef) and i.ty.k in ('int', 'double'):
                        x = self.fresh_ty('undef', i.ty)
                    new[i.dst] = x
                    break
            else:
                raise Unsupported('phi without matching edge')
        fr.env.update(new)
        fr.prev = prev
        fr.bb = lab
        fr.ip = n

    def jump(self, st, lab, barrier, until):
        fr = st.frames[-1]
        loops = self.m.loops(fr.fn)
        # leaving loops?
        while fr.loops:
            h, ctx = fr.loops[-1]
            if lab in loops[h]:
                break
            if ctx is until:
                return []
            fr.loops = fr.loops[:-1]
        if lab in loops:
            if fr.loops and fr.loops[-1][0] == lab:
                ctx = fr.loops[-1][1]
                self.assign_phis(st, fr, lab)
                if ctx is until:
                    return [('back', st)]
                # back edge of a loop whose invariant is established: check preservation
                self.check_back(st, ctx)
                return []
            self.assign_phis(st, fr, lab)
            h = self.enter_loop(st, lab)
            return [('run', h)] if h is not None else []
        self.assign_phis(st, fr, lab)
        if self.merges and self.merges[-1] == (lab, len(st.frames), fr.fn.dem, barrier, until):
            return [('merge', st)]
        return None

    def fork_merge(self, st, live, join, barrier, until):
        """run the branches up to the block where they meet, and go on with one state for those that can be joined"""
        key = (join, len(st.frames), st.frames[-1].fn.dem, barrier, until)
        base = len(st.pc)
        work, out, met = [], [], []
        self.merges.append(key)
        try:
            for n, (c, lab) in enumerate(live):
                s = st if n == len(live) - 1 else st.clone()
                s.assume(c)
                r = self.jump(s, lab, barrier, until)
                work.extend([('run', s)] if r is None else r)
            while work:
                kind, s = work.pop()
                if kind == 'run':
                    work.extend(self.run(s, barrier, until))
                elif kind == 'merge':
                    met.append(s)
                else:
                    out.append((kind, s))
        finally:
            self.merges.pop()
        done = []
        while met:
            a = met.pop()
            for n, b in enumerate(done):
                m = self.merge_states(a, b, base)
                if m is not None:
                    done[n] = m
                    break
            else:
                done.append(a)
        kind = 'merge' if self.merges and self.merges[-1] == key else 'run'
        return out + [(kind, s) for s in done]

    def merge_states(self, a, b, base):
        n = base
        da, db = a.pc[n:], b.pc[n:]
        if not da or not db:
            return None
        g = da[0] if len(da) == 1 else z3.And(da)
        k = db[0] if len(db) == 1 else z3.And(db)
        defs = []

        def join(x, y):
            if self.vsame(x, y):
                return x
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort():
                if x.sort() == BV64 or x.sort() == z3.BoolSort() or z3.is_bv(x):
                    return simp(z3.If(g, x, y))
                f = fresh('join', x.sort())
                defs.append(z3.Implies(g, f == x))
                defs.append(z3.Implies(k, f == y))
                return f
            if isinstance(x, Opq) and isinstance(y, Opq) and self.vsame_off(x.off, y.off):
                return Opq(simp(z3.If(g, x.t, y.t)), x.off)
            if isinstance(x, Abs) and type(x) is type(y) and hasattr(x, 't') and isinstance(x.t, z3.ExprRef) and len(x.inv_leaves()) == 1:
                f = fresh('join', x.t.sort())
                defs.append(z3.Implies(g, f == x.t))
                defs.append(z3.Implies(k, f == y.t))
                return type(x)(f)
            if isinstance(x, Undef) and z3.is_bv(y):
                return simp(z3.If(k, y, fresh('indeterminate', y.sort())))       # any value at all where none was given
            if isinstance(y, Undef) and z3.is_bv(x):
                return simp(z3.If(g, x, fresh('indeterminate', x.sort())))
            if isinstance(x, (Poison, Undef)) or isinstance(y, (Poison, Undef)):
                return Poison('not the same on all branches')
            raise NoMerge()

        def soft(x, y):
            try:
                return join(x, y)
            except NoMerge:
                if self.merge_poison:
                    return Poison('not the same on all branches')
                raise
        try:
            m = a.clone()
            if len(a.frames) != len(b.frames) or any((x is None) != (y is None) for x, y in zip(a.frames, b.frames)):
                return None
            for fa, fb, fm in zip(a.frames, b.frames, m.frames):
                if fa is None:
                    continue
                if fa.bb != fb.bb or fa.ip != fb.ip or fa.loops != fb.loops:
                    return None
                fm.allocas = tuple(dict.fromkeys(fa.allocas + fb.allocas))
                used = self.m.used_from(fa.fn, fa.bb)
                for key in set(fa.env) & set(fb.env):
                    if key in used or fa is not a.frames[-1]:
                        fm.env[key] = join(fa.env[key], fb.env[key])
                    else:
                        del fm.env[key]
                for key in set(fa.env) - set(fb.env):
                    del fm.env[key]
            if set(a.ghost) != set(b.ghost):
                return None
            for key in a.ghost:
                m.ghost[key] = join(a.ghost[key], b.ghost[key])
            for id in set(a.mem) | set(b.mem):
                oa, ob = a.mem.get(id), b.mem.get(id)
                if oa is ob:
                    continue
                if oa is None or ob is None:
                    m.mem[id] = oa or ob
                    continue
                if oa.kind != ob.kind or oa.size != ob.size or oa.info != ob.info:
                    return None
                om = m.wobj(id)
                for off in set(oa.cells) | set(ob.cells):
                    ca, cb = oa.cells.get(off), ob.cells.get(off)
                    if (ca is None or cb is None) and not any(o <= off < o + n or off <= o < off + (ca or cb)[0] for o, (n, _) in (ob if ca else oa).cells.items()):
                        om.cells[off] = ((ca or cb)[0], join(ca[1] if ca else UNDEF, cb[1] if cb else UNDEF))
                    elif ca is None or cb is None or ca[0] != cb[0]:
                        om.cells[off] = ((ca or cb)[0], Poison('not the same on all branches'))
                    else:
                        om.cells[off] = (ca[0], soft(ca[1], cb[1]))
                for off in set(oa.abs) | set(ob.abs):
                    xa, xb = oa.abs.get(off), ob.abs.get(off)
                    if (xa is None or xb is None) and self.merge_poison and type(xa or xb).__name__ == 'AStr':
                        f = fresh('join', Str)              # any text at all where there was none
                        defs.append(z3.Implies(g if xa else k, f == (xa or xb).t))
                        om.abs[off] = type(xa or xb)(f)
                    elif xa is None or xb is None:
                        om.abs[off] = Poison('not the same on all branches')
                    else:
                        om.abs[off] = soft(xa, xb)
        except NoMerge:
            return None
        m.pc = list(a.pc[:n])
        m.assume(simp_or(g, k), *defs)
        return m

    def loop_leaves(self, st, depth):
        """all mutable locations of the state: key -> value"""
        out = {}
        for id, o in st.mem.items():
            if o.kind in ('mem', 'sym', 'special'):
                for off, (n, v) in o.cells.items():
                    out[('c', id, off, n)] = v
                for off, a in o.abs.items():
                    out[('a', id, off)] = a
        for k, v in st.ghost.items():
            out[('g', k)] = v
        return out

    def vsame(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if isinstance(a.off, VOff) or isinstance(b.off, VOff):
                return a.obj == b.obj and isinstance(a.off, VOff) and isinstance(b.off, VOff) and a.off.sub == b.off.sub and a.off.idx.eq(b.off.idx)
            return a.obj == b.obj and (a.off == b.off if isinstance(a.off, int) and isinstance(b.off, int)
                                       else (not isinstance(a.off, int) and not isinstance(b.off, int) and a.off.eq(b.off)))
        if isinstance(a, Opq) and isinstance(b, Opq):
            return a.t.eq(b.t) and self.vsame_off(a.off, b.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if isinstance(a, Abs) and isinstance(b, Abs):
            return a.same(b)
        if isinstance(a, Undef) and isinstance(b, Undef):
            return True
        if isinstance(a, Poison) and isinstance(b, Poison):
            return True
        if isinstance(a, Agg) and isinstance(b, Agg):
            return len(a.v) == len(b.v) and all(self.vsame(x, y) for x, y in zip(a.v, b.v))
        if type(a) is not type(b):
            return False
        if isinstance(a, (int, str, tuple, bool)):
            return a == b
        if isinstance(a, ExcObj):
            return a.ti == b.ti
        return False

    def vsame_off(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, int) or isinstance(b, int):
            return False
        return a.eq(b)

    def havoc_val(self, v, others, label):
        if isinstance(v, z3.ExprRef):
            if all(isinstance(x, z3.ExprRef) and x.sort() == v.sort() for x in others):
                # booleans held in bytes stay booleans
                if isinstance(v, z3.BitVecRef) and v.size() == 8 and all(self.is_bool8(x) for x in [v] + list(others)):
                    b = fresh(label, z3.BoolSort())
                    return z3.If(b, bv(1, 8), bv(0, 8))
                return fresh(label, v.sort())
            if all(isinstance(x, Opq) for x in others) and z3.is_bv(v) and v.size() == 64:
                return Opq(fresh(label, BV64))
        if isinstance(v, Ptr):
            if all(isinstance(x, Ptr) and x.obj == v.obj for x in others):
                if isinstance(v.off, VOff):
                    if all(isinstance(x.off, VOff) and x.off.sub == v.off.sub for x in others):
                        return Ptr(v.obj, VOff(fresh(label, BV64), v.off.sub))
                    return Poison('changed in loop: ' + label)
                return Ptr(v.obj, fresh(label, BV64))
        if isinstance(v, Opq):
            if all(isinstance(x, Opq) and self.vsame_off(x.off, v.off) for x in others):
                return Opq(fresh(label, BV64), v.off)
        if isinstance(v, Abs):
            if all(type(x) is type(v) for x in others):
                return v.havoc(self, label)
        if isinstance(v, Agg) and all(isinstance(x, Agg) and len(x.v) == len(v.v) for x in others):
            return Agg([self.havoc_val(y, [x.v[i] for x in others], label) for i, y in enumerate(v.v)])
        return Poison('changed in loop: ' + label)

    @staticmethod
    def is_bool8(v):
        if is_lit(v):
            return v.as_long() in (0, 1)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            return Engine.is_bool8(v.arg(1)) and Engine.is_bool8(v.arg(2))
        return False

    def get_leaf(self, st, key, depth):
        k = key[0]
        if k == 'p':
            return st.frames[depth].env.get(key[1])
        if k == 'g':
            return st.ghost.get(key[1])
        o = st.mem.get(key[1])
        if o is None:
            return Poison('object gone')
        if k == 'c':
            c = o.cells.get(key[2])
            if c is None or c[0] != key[3]:
                return Poison('cell gone')
            return c[1]
        return o.abs.get(key[2], Poison('abstract value gone'))

    def set_leaf(self, st, key, v, depth):
        k = key[0]
        if k == 'p':
            st.frames[depth].env[key[1]] = v
        elif k == 'g':
            st.ghost[key[1]] = v
        elif k == 'c':
            st.wobj(key[1]).cells[key[2]] = (key[3], v)
        else:
            st.wobj(key[1]).abs[key[2]] = v

    def enter_loop(self, st, header):
        """st is at the header with entry phi values. Returns the generic header state."""
        depth = len(st.frames) - 1
        fr = st.frames[-1]
        entry = st
        phis = [('p', i.dst) for i in self.m.ins(fr.fn, header) if i.op == 'phi']
        name = '%s:loop@%s' % (short(fr.fn.dem), header)
        site = (name,) + tuple(f.fn.dem for f in st.frames[:-1] if f)
        mod = {}                    # key -> list of back values seen
        saved = self.discover, self.cand_filter, self.cand_record
        self.infer += 1
        try:
            if not self.discover:
                self.discover, self.cand_filter, self.cand_record = 1, {}, {}
            for p in phis:
                mod[p] = []
            rnd = 0
            while True:
                rnd += 1
                if rnd > 8:
                    raise Unsupported('loop frame does not stabilise: ' + name)
                h = entry.clone()
                self.havoc_state(h, entry, mod, depth)
                ctx = LoopCtx(header)
                h.frames[-1].loops = h.frames[-1].loops + ((header, ctx),)
                base = self.loop_leaves(h, depth)
                hh = h.clone()
                try:
                    backs = self.explore([h], barrier=-10, until=ctx)
                except Unsupported:
                    if not self.discover or saved[0]:
                        raise
                    # without the invariants of inner loops the body is out of reach: infer them as well
                    self.discover = 0
                    h = hh.clone()
                    ctx = LoopCtx(header)
                    h.frames[-1].loops = h.frames[-1].loops[:-1] + ((header, ctx),)
                    backs = self.explore([h], barrier=-10, until=ctx)
                changed = False
                for b in backs:
                    if len(b.frames) - 1 != depth:
                        raise Unsupported('frame mismatch at back edge')
                    lv = self.loop_leaves(b, depth)
                    for k, v in base.items():
                        v2 = lv.get(k, None)
                        if v2 is None:
                            v2 = Poison('gone')
                        if not self.vsame(v, v2):
                            if k not in mod:
                                mod[k] = []
                                changed = True
                            if self.newkind(entry, mod, k, v2, depth):
                                mod[k].append(v2)
                                changed = True
                    # cells that appear in persistent objects
                    for k, v2 in lv.items():
                        if k not in base and k[0] in ('c', 'a') and k[1] in hh.mem:
                            if k not in mod:
                                mod[k] = [Poison('appears in loop')]
                                changed = True
                        elif k not in base and k[0] == 'g':
                            raise Unsupported('ghost appears in loop')
                    for p in phis:
                        v2 = self.get_leaf(b, p, depth)
                        if self.newkind(entry, mod, p, v2, depth):
                            mod[p].append(v2)
                            changed = True
                if not changed:
                    break
            # candidates
            hint = self.next_hint(name) if self.infer == 1 and not saved[0] else None
            if hint is not None:
                cands = number(self.candidates(entry, hh, mod, depth, backs))
                n0 = len(cands)
                cands = [c for c in cands if c.uid in hint]
                if len(cands) != len(hint):
                    raise HintMiss(name)
            elif saved[0]:
                cands, n0 = [], 0           # only what the loop changes is wanted
            else:
                cands = number(self.candidates(entry, hh, mod, depth, backs))
                n0 = len(cands)
                site += (frozenset(plain(c.name) for c in cands),)
                if name in saved[1]:
                    cands = [c for c in cands if plain(c.name) in saved[1][name]]
                elif self.prune and site in self.survivors:
                    self.pruned = True
                    cands = [c for c in cands if plain(c.name) in self.survivors[site]]
                cands = self.filter_entry(entry, cands, depth)
            self.discover = 0
            self.cand_filter = {}
            it = 0
            while not saved[0] and hint is None:
                it += 1
                self.cand_record = {}
                h = entry.clone()
                self.havoc_state(h, entry, mod, depth)
                ctx = LoopCtx(header)
                fs = []
                for c in cands:
                    f = c.ev(self, h, depth)
                    fs.append(f)
                h.assume(*[f for f in fs if f is not None])
                h.frames[-1].loops = h.frames[-1].loops + ((header, ctx),)
                hstate = h.clone()
                self.had_inner = False
                backs = self.explore([h], barrier=-10, until=ctx)
                inner = self.had_inner
                self.had_inner = True
                kept = self.houdini(hstate, backs, cands, depth, fs)
                stable = len(kept) == len(cands)
                cands = kept
                if self.cand_record or inner:
                    self.cand_filter = self.cand_record
                if stable or it > 12:
                    break
        finally:
            self.infer -= 1
            self.discover = saved[0]
            self.cand_record = saved[2]
        if not saved[0]:
            self.cand_record.setdefault(name, set()).update(plain(c.name) for c in cands)
            self.survivors.setdefault(site, set()).update(plain(c.name) for c in cands)
            self.cand_filter = dict(saved[1], **self.cand_filter)
        self.had_inner = True
        # obligations: initiation
        final = entry.clone()
        self.havoc_state(final, entry, mod, depth)
        ctx = LoopCtx(header)
        ctx.cands, ctx.depth, ctx.name = cands, depth, name
        if not self.infer:
            self.hint_log.append([namehash(name), ''.join(sorted(c.uid for c in cands))])
            for c in cands:
                f = c.ev(self, entry, depth)
                self.oblige(entry, name + '.init: ' + c.name, f, 'invariant')
            ctx.nonvac = True
        final.assume(*[c.ev(self, final, depth) for c in cands])
        final.frames[-1].loops = final.frames[-1].loops + ((header, ctx),)
        self.loop_log.append('%s: %d modified, %d candidates, %d invariants' % (name, len(mod), n0, len(cands)))
        return final

    def next_hint(self, name):
        """invariants that were found for this loop when the baseline was made. They are proved again here; a hint only saves
        the search for them."""
        if self.hints is None:
            return None
        n = self.hint_pos
        self.hint_pos += 1
        if n >= len(self.hints) or self.hints[n][0] != namehash(name):
            raise HintMiss(name)
        t = self.hints[n][1]
        return {t[i:i + 10] for i in range(0, len(t), 10)}

    hints = None
    hint_pos = 0
    prune = True                # at a loop seen before, only what was invariant then is tried (see prove.run_task)
    pruned = False
    had_inner = False
    discover = 0                # 1: only the frames of loops are computed, no invariants
    cand_filter = {}            # invariants of inner loops that survived the last round, by loop
    cand_record = {}

    def check_back(self, st, ctx):
        if self.infer:
            return
        for c in ctx.cands:
            f = c.ev(self, st, ctx.depth)
            if f is None:
                f = z3.BoolVal(False)
            self.oblige(st, ctx.name + '.preserve: ' + c.name, f, 'invariant')

    def newkind(self, entry, mod, k, v2, depth):
        """does v2 change how key k has to be havocked?"""
        v = self.get_leaf(entry, k, depth)
        cur = self.havoc_val(v, mod[k], 'x') if not isinstance(v, Poison) else v
        new = self.havoc_val(v, mod[k] + [v2], 'x') if not isinstance(v, Poison) else v
        if type(cur) is not type(new):
            return True
        if isinstance(cur, z3.ExprRef) and cur.sort() == new.sort() and self.is_bool8(cur) != self.is_bool8(new) and z3.is_bv(cur) and cur.size() == 8:
            return True
        return False

    def havoc_state(self, h, entry, mod, depth):
        for k, vs in mod.items():
            v = self.get_leaf(entry, k, depth)
            if v is None or isinstance(v, Poison):
                if k[0] == 'p':
                    self.set_leaf(h, k, Poison('loop'), depth)
                elif k[0] == 'c':
                    o = h.wobj(k[1])
                    o.cells[k[2]] = (k[3], Poison('appears in loop'))
                elif k[0] == 'a':
                    h.wobj(k[1]).abs[k[2]] = Poison('appears in loop')
                continue
            if v is UNDEF:
                self.set_leaf(h, k, Poison('uninitialised before loop') if not vs else Poison('loop'), depth)
                continue
            nm = 'L_%s' % (str(k[-1]) if k[0] != 'c' else 'c%s' % (k[2],))
            self.set_leaf(h, k, self.havoc_val(v, vs, nm), depth)

    def candidates(self, entry, h, mod, depth, backs):
        from .invgen import generate
        return generate(self, entry, h, mod, depth, backs)

    def filter_entry(self, entry, cands, depth):
        fs = []
        keep = []
        for c in cands:
            f = c.ev(self, entry, depth)
            if f is None:
                continue
            keep.append(c)
            fs.append(f)
        return self.filter_valid(entry.pc, keep, fs)

    def filter_valid(self, pc, cands, fs):
        """remove candidates not implied by pc, several per model"""
        live = list(zip(cands, fs))
        live2 = []
        sure = []
        for c, f in live:
            g = simp(f)
            if istrue(g):
                sure.append(c)
            else:
                live2.append((c, g))
        live = live2
        if not live:
            return [c for c in cands if c in sure]
        s = z3.Solver()
        s.set('timeout', 3000)
        fast_add(s, pc)
        fast_add(s, self.axioms(list(pc) + [f for _, f in live]))
        fast_add(s, self.facts)
        t = time.time()
        while live:
            s.push()
            s.add(z3.Not(z3.And([f for _, f in live])))
            r = s.check()
            self.queries += 1
            if r == z3.unsat:
                s.pop()
                break
            if r == z3.sat:
                m = s.model()
                n = [(c, f) for c, f in live if not isfalse(m.eval(f, model_completion=True))]
                if len(n) == len(live):
                    # model does not decide: test one by one
                    s.pop()
                    n = []
                    for c, f in live:
                        s.push()
                        s.add(z3.Not(f))
                        if s.check() == z3.unsat:
                            n.append((c, f))
                        s.pop()
                    live = n
                    break
                live = n
                s.pop()
            else:
                s.pop()
                n = []
                for c, f in live:
                    if self.check(list(pc) + [z3.Not(f)], 10000)[0] == z3.unsat:
                        n.append((c, f))
                live = n
                break
        self.solver_time['z3'] += time.time() - t
        ok = {id(c) for c, _ in live} | {id(c) for c in sure}
        return [c for c in cands if id(c) in ok]

    def houdini(self, h, backs, cands, depth, fs):
        """drop candidates until those left are preserved on the given back-edge states"""
        cur = list(cands)
        asm = {id(c): f for c, f in zip(cands, fs)}
        npre = len(h.pc)
        while True:
            n = len(cur)
            for b in backs:
                fb = []
                keep = []
                for c in cur:
                    f = c.ev(self, b, depth)
                    if f is None:
                        continue
                    keep.append(c)
                    fb.append(f)
                # path condition of b minus the assumptions of dropped candidates
                curset = {asm[id(c)].get_id() for c in cur if asm.get(id(c)) is not None}
                drop = {asm[id(c)].get_id() for c in cands if asm.get(id(c)) is not None} - curset
                pc = [f for f in b.pc if f.get_id() not in drop]
                cur = self.filter_valid(pc, keep, fb)
            if len(cur) == n:
                return cur

    # ------------------------------------------------------------ scalar operations
    def icmp(self, st, pred, a, b, ty):
        if isinstance(a, (Undef, Poison)) or isinstance(b, (Undef, Poison)):
            return fresh('undef', z3.BoolSort())
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if not isinstance(a, z3.BoolRef):
                a = self.to_bool(a)
            if not isinstance(b, z3.BoolRef):
                b = self.to_bool(b)
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(z3.Xor(a, b))
            a = z3.If(a, bv(1, 1), bv(0, 1))
            b = z3.If(b, bv(1, 1), bv(0, 1))
        if isinstance(a, (Ptr, Opq, FnPtr)) or isinstance(b, (Ptr, Opq, FnPtr)):
            return self.pcmp(st, pred, a, b)
        f = ICMP[pred]
        return simp(f(a, b))

    def pcmp(self, st, pred, a, b):
        if isinstance(a, z3.BitVecRef):
            a = Opq(a)
        if isinstance(b, z3.BitVecRef):
            b = Opq(b)
        r = self.pcmp_hook(st, pred, a, b) if self.pcmp_hook else None
        if r is not None:
            return r
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if isinstance(a.off, VOff):
                    if a.off.sub != b.off.sub:
                        raise Unsupported('comparison of interior element pointers')
                    return simp(ICMP[pred](a.off.idx, b.off.idx))
                if isinstance(a.off, int) and isinstance(b.off, int):
                    r = {'eq': a.off == b.off, 'ne': a.off != b.off, 'ult': a.off < b.off, 'ugt': a.off > b.off,
                         'ule': a.off <= b.off, 'uge': a.off >= b.off}[pred]
                    return z3.BoolVal(r)
                return simp(ICMP[pred](off_term(a.off), off_term(b.off)))
            if pred in ('eq', 'ne'):
                return z3.BoolVal(pred == 'ne')
            raise Unsupported('ordering of unrelated pointers')
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return z3.BoolVal((a.name == b.name) == (pred == 'eq'))
        if isinstance(a, Opq) and isinstance(b, Opq):
            if self.vsame_off(a.off, b.off):
                e = a.t == b.t
            else:
                la, lb = is_lit(a.t), is_lit(b.t)
                if (la and a.t.as_long() == 0 and a.off == 0) or (lb and b.t.as_long() == 0 and b.off == 0):
                    e = z3.BoolVal(False)
                else:
                    raise Unsupported('comparison of interior opaque pointers')
            if pred in ('eq', 'ne'):
                return simp(e if pred == 'eq' else z3.Not(e))
            raise Unsupported('ordering of opaque pointers')
        # concrete object against opaque pointer / null
        if pred in ('eq', 'ne'):
            o = a if isinstance(a, Opq) else b
            if not (is_lit(o.t)):
                # a schema-side pointer never designates an object created by this call
                pass
            return z3.BoolVal(pred == 'ne')
        raise Unsupported('pointer comparison')

    pcmp_hook = None

    def fcmp(self, pred, a, b):
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'ord':
            return z3.Not(nan)
        if pred == 'uno':
            return nan
        if pred in ('true', 'false'):
            return z3.BoolVal(pred == 'true')
        base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'gt': z3.fpGT, 'le': z3.fpLEQ, 'ge': z3.fpGEQ}[pred[1:]]
        r = base(a, b)
        if pred[0] == 'o':
            return z3.And(z3.Not(nan), r) if pred == 'one' else r
        if pred == 'une':
            return r
        return z3.Or(nan, r)

    def fdiv(self, a, b):
        """IEEE division; a specification may leave its value uninterpreted (it is then only known to be a function)"""
        if getattr(self, 'fp_uf', False):
            return z3.Function('ieee_div', F64, F64, F64)(a, b)
        return z3.fpDiv(RNE, a, b)

    def binop(self, st, op, flags, a, b, ty):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poisoned value')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.defv(a, ty)
            b = self.defv(b, ty)
            if op == 'frem':
                raise Unsupported('frem')
            if op == 'fdiv':
                return self.fdiv(a, b)
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul}[op](RNE, a, b)
        if isinstance(a, (Ptr, Opq)) or isinstance(b, (Ptr, Opq)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if isinstance(a.off, VOff):
                    es = self.elem_size(st, a) or 8
                    d = simp(simp(a.off.idx - b.off.idx) * es)
                    self.exact[d.get_id()] = (d, simp(a.off.idx - b.off.idx), es)
                    return d
                d = zadd(off_term(a.off), simp(-off_term(b.off)))
                return off_term(d)
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, z3.BitVecRef):
                return self.padd(a, b)
            raise Unsupported('integer arithmetic on pointers')
        a = self.defv(a, ty)
        b = self.defv(b, ty)
        if isinstance(a, z3.BoolRef):
            if not isinstance(b, z3.BoolRef):
                b = self.to_bool(b)
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        w = a.size()
        if op in ('sdiv', 'ashr', 'udiv', 'lshr') and a.get_id() in self.exact and is_lit(b):
            _, q, es = self.exact[a.get_id()]
            if (b.as_long() if 'div' in op else 1 << b.as_long()) == es:
                return q
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            self.oblige(st, 'arith.divisor is not zero', b != 0, 'safety')
            if op[0] == 's':
                self.oblige(st, 'arith.no division overflow', z3.Not(z3.And(a == bv(1 << (w - 1), w), b == bv(-1, w))), 'safety')
        if flags and 'nsw' in flags and op in ('add', 'sub', 'mul') and w >= 32 and self.safety:
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            if not (is_lit(a) and is_lit(b)):
                self.oblige(st, 'arith.no signed overflow in ' + op, ok, 'safety')
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b}[op]
        return simp(f())

    def cast(self, st, op, a, t1, t2):
        if isinstance(a, Undef):
            return UNDEF
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'bitcast' and t1.k != t2.k:
                raise Unsupported('bitcast')
            if op == 'inttoptr' and isinstance(a, z3.BitVecRef):
                return Opq(a)
            if op == 'ptrtoint' and isinstance(a, Opq) and a.off == 0:
                return a.t
            return a
        if isinstance(a, (Ptr, Opq, FnPtr)):
            if op in ('zext', 'trunc') and t1.a == t2.a:
                return a
            raise Unsupported('integer cast of pointer')
        if op == 'trunc':
            if isinstance(a, z3.BoolRef):
                return a
            if t2.a == 1:
                return self.to_bool(a)
            return simp(z3.Extract(t2.a - 1, 0, a))
        if op == 'zext':
            if isinstance(a, z3.BoolRef):
                return z3.If(a, bv(1, t2.a), bv(0, t2.a))
            return simp(z3.ZeroExt(t2.a - a.size(), a))
        if op == 'sext':
            if isinstance(a, z3.BoolRef):
                return z3.If(a, bv(-1, t2.a), bv(0, t2.a))
            return simp(z3.SignExt(t2.a - a.size(), a))
        if op == 'sitofp':
            if isinstance(a, z3.BoolRef):
                a = z3.If(a, bv(-1, 8), bv(0, 8))
            return z3.fpSignedToFP(RNE, a, F64 if t2.k == 'double' else F32)
        if op == 'uitofp':
            if isinstance(a, z3.BoolRef):
                a = z3.If(a, bv(1, 8), bv(0, 8))
            return z3.fpUnsignedToFP(RNE, a, F64 if t2.k == 'double' else F32)
        if op in ('fptosi', 'fptoui'):
            w = t2.a
            if op == 'fptosi':
                lo, hi = -(2.0 ** (w - 1)), 2.0 ** (w - 1)
                ok = z3.And(z3.fpGEQ(a, z3.FPVal(lo, F64)) if w > 52 else z3.fpGT(a, z3.FPVal(lo - 1, F64)), z3.fpLT(a, z3.FPVal(hi, F64)))
                self.oblige(st, 'arith.double to integer conversion in range', ok, 'safety')
                return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w))
            ok = z3.And(z3.fpGT(a, z3.FPVal(-1.0, F64)), z3.fpLT(a, z3.FPVal(2.0 ** w, F64)))
            self.oblige(st, 'arith.double to unsigned conversion in range', ok, 'safety')
            return z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w))
        if op == 'fpext':
            return z3.fpToFP(RNE, a, F64)
        if op == 'fptrunc':
            return z3.fpToFP(RNE, a, F32)
        raise Unsupported('cast ' + op)

    def intrinsic(self, st, fr, ins, name, barrier, until):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.prefetch', 'llvm.stackrestore', 'llvm.va_')):
            fr.ip += 1
            return None
        args = [self.val(st, fr, t, o) for t, o, _ in ins.b]
        r = None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = args[2]
            if not is_lit(n):
                raise Unsupported('memcpy of symbolic length')
            self.memcpy(st, args[0], args[1], n.as_long())
        elif name.startswith('llvm.memset'):
            n = args[2]
            if not is_lit(n) or not is_lit(args[1]) or not isinstance(args[0], Ptr):
                raise Unsupported('memset')
            n = n.as_long()
            if n > 512:
                raise Unsupported('big memset')
            o = st.wobj(args[0].obj)
            off = args[0].off
            self.kill(o, off, n)
            for k in [k for k in o.cells if off <= k < off + n]:
                del o.cells[k]
            b = args[1].as_long()
            i = 0
            while i < n:
                if (off + i) % 8 == 0 and i + 8 <= n:
                    o.cells[off + i] = (8, bv(int.from_bytes(bytes([b]) * 8, 'little'), 64))
                    i += 8
                else:
                    o.cells[off + i] = (1, bv(b, 8))
                    i += 1
        elif name.startswith('llvm.fabs'):
            r = z3.fpAbs(args[0])
        elif name.startswith('llvm.round.'):
            r = z3.fpRoundToIntegral(z3.RNA(), args[0])
        elif name.startswith('llvm.floor'):
            r = z3.fpRoundToIntegral(z3.RTN(), args[0])
        elif name.startswith('llvm.ceil'):
            r = z3.fpRoundToIntegral(z3.RTP(), args[0])
        elif name.startswith('llvm.trunc'):
            r = z3.fpRoundToIntegral(z3.RTZ(), args[0])
        elif name.startswith(('llvm.rint', 'llvm.nearbyint')):
            r = z3.fpRoundToIntegral(z3.RNE(), args[0])
        elif name.startswith('llvm.is.fpclass'):
            m = args[1].as_long()
            x = args[0]
            tests = [(0x3, z3.fpIsNaN(x)), (0x4, z3.And(z3.fpIsInf(x), z3.fpIsNegative(x))), (0x8, z3.And(z3.fpIsNormal(x), z3.fpIsNegative(x))),
                     (0x10, z3.And(z3.fpIsSubnormal(x), z3.fpIsNegative(x))), (0x20, z3.And(z3.fpIsZero(x), z3.fpIsNegative(x))),
                     (0x40, z3.And(z3.fpIsZero(x), z3.fpIsPositive(x))), (0x80, z3.And(z3.fpIsSubnormal(x), z3.fpIsPositive(x))),
                     (0x100, z3.And(z3.fpIsNormal(x), z3.fpIsPositive(x))), (0x200, z3.And(z3.fpIsInf(x), z3.fpIsPositive(x)))]
            r = z3.Or([c for k, c in tests if m & k])
        elif name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            r = bv(self.typeid(p.obj[1] if isinstance(p, Ptr) else None), 32)
        elif name.startswith('llvm.umax'):
            r = simp(z3.If(z3.UGT(args[0], args[1]), args[0], args[1]))
        elif name.startswith('llvm.umin'):
            r = simp(z3.If(z3.ULT(args[0], args[1]), args[0], args[1]))
        elif name.startswith('llvm.smax'):
            r = simp(z3.If(args[0] > args[1], args[0], args[1]))
        elif name.startswith('llvm.smin'):
            r = simp(z3.If(args[0] < args[1], args[0], args[1]))
        elif name.startswith('llvm.abs'):
            r = simp(z3.If(args[0] < 0, -args[0], args[0]))
        elif name.startswith('llvm.trap'):
            self.oblige(st, 'control.trap', z3.BoolVal(False), 'safety')
            return []
        elif name.startswith('llvm.stacksave'):
            r = NULL
        elif name.startswith('llvm.expect'):
            r = args[0]
        elif name.startswith('llvm.is.constant'):
            r = z3.BoolVal(False)
        elif name.startswith('llvm.objectsize'):
            r = bv(-1)
        else:
            raise Unsupported('intrinsic ' + name)
        if ins.dst is not None:
            fr.env[ins.dst] = r
        if ins.op == 'invoke':
            return self.jump(st, ins.x[0], barrier, until)
        fr.ip += 1
        return None


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
ICMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
        'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}


class HintMiss(Exception):
    pass


def namehash(name):
    return hashlib.sha1(plain(name).encode()).hexdigest()[:10]


def number(cands):
    """names of candidates are not unique: tell those with the same name apart by their order"""
    seen = {}
    for c in cands:
        n = plain(c.name)
        k = seen[n] = seen.get(n, -1) + 1
        c.uid = namehash('%s#%d' % (n, k))
    return cands


def plain(name):
    return re.sub(r'![0-9]+', '', name)


class LoopCtx:
    def __init__(self, header):
        self.header = header
        self.cands = []
        self.depth = None
        self.name = ''


class ExcObj:
    def __init__(self, ti='_ZTISt13runtime_error'):
        self.ti = ti


class Multi:
    """several outcomes of a contract"""
    def __init__(self, items):
        self.items = items


class Call:
    """Arguments of a contract handler."""
    def __init__(self, E, st, ins, args, dem):
        self.E, self.st, self.ins, self.dem = E, st, ins, dem
        self.args = args
        self.sret = None
        if ins is not None and ins.b and 'sret' in ins.b[0][2]:
            self.sret = args[0]
            self.args = args[1:]

    def __getitem__(self, i):
        return self.args[i]

    def split(self, cond, yes, no):
        """fork on cond; yes/no: fn(Call on the branch state) -> value (may raise Throw)"""
        E = self.E
        cond = simp(cond)
        if istrue(cond):
            return yes(self)
        if isfalse(cond):
            return no(self)
        items = []
        for c, f in ((cond, yes), (simp(z3.Not(cond)), no)):
            if not E.feasible(self.st, c):
                continue
            s = self.st.clone()
            s.assume(c)
            k = Call(E, s, None, self.args, self.dem)
            k.ins, k.sret = self.ins, self.sret
            try:
                r = f(k)
                if isinstance(r, Multi):
                    items.extend(r.items)
                else:
                    items.append((k.st, 'ret', r))
            except Throw as t:
                items.append((k.st, 'throw', ExcObj(t.exc)))
        return Multi(items)


def short(dem):
    s = re.sub(r'<.*?>', '', dem)
    while '<' in s and '>' in s:
        n = re.sub(r'<[^<>]*>', '', s)
        if n == s:
            break
        s = n
    s = dem
    # strip nested template args
    out = []
    d = 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out)
    s = s.split('(')[0]
    return s.split(' ')[-1]
