"""Candidate loop invariants. Everything produced here is only a guess: the engine keeps the
candidates that hold on entry and are preserved, and both facts become obligations."""
import z3
from .engine import Ptr, Opq, Abs, VOff, BV64, bv, is_lit, simp, istrue, isfalse, off_term, Poison, UNDEF, Str
from .lib_std import ASet, AErrQ, APath, AStr


class Cand:
    __slots__ = ('name', 'fn', 'uid')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def ev(self, E, st, depth):
        try:
            return self.fn(E, st, depth)
        except (AttributeError, TypeError, KeyError, z3.Z3Exception):
            return None


class Leaf:
    """a modified scalar: kind, and how to read it from a state"""
    def __init__(self, name, kind, get, key=None):
        self.name, self.kind, self.get, self.key = name, kind, get, key


def scalar_leaves(E, entry, mod, depth):
    out = []
    for k in mod:
        v = E.get_leaf(entry, k, depth)
        nm = {'p': lambda: 'phi %s' % k[1], 'g': lambda: 'ghost %s' % (k[1],)}.get(k[0], lambda: 'obj%s+%s' % (entry.obj(k[1]).name or k[1], k[2]))()

        def rd(st, d, k=k):
            return E.get_leaf(st, k, d)
        if isinstance(v, z3.BoolRef):
            out.append(Leaf(nm, 'bool', rd, k))
        elif isinstance(v, z3.BitVecRef):
            if E.is_bool8(v) and v.size() == 8:
                out.append(Leaf(nm, 'bool', lambda st, d, rd=rd: E.to_bool(rd(st, d)), k))
            else:
                out.append(Leaf(nm, 'int%d' % v.size(), rd, k))
        elif isinstance(v, Ptr) and isinstance(v.off, VOff):
            out.append(Leaf(nm, 'idx', lambda st, d, rd=rd: rd(st, d).off.idx, k))
        elif isinstance(v, Ptr):
            out.append(Leaf(nm, 'off', lambda st, d, rd=rd: off_term(rd(st, d).off), k))
        elif isinstance(v, AErrQ):
            out.append(Leaf(nm + '.tail', 'tail', lambda st, d, rd=rd: rd(st, d).tail, k))
            out.append(Leaf(nm + '.head', 'head', lambda st, d, rd=rd: rd(st, d).head, k))
            out.append(Leaf(nm + '.arr', 'errs', lambda st, d, rd=rd: rd(st, d).arr, k))
        elif isinstance(v, ASet):
            out.append(Leaf(nm + '.set', 'set', lambda st, d, rd=rd: rd(st, d).arr, k))
            out.append(Leaf(nm + '.card', 'card', lambda st, d, rd=rd: rd(st, d).n, k))
        elif isinstance(v, Abs) and hasattr(v, 'inv_leaves'):
            for nm2, kind, g in v.inv_leaves():
                out.append(Leaf(nm + nm2, kind, lambda st, d, rd=rd, g=g: g(rd(st, d)), k))
    return out


def w64(t):
    if t.size() == 64:
        return t
    return z3.ZeroExt(64 - t.size(), t)


def generate(E, entry, h, mod, depth, backs):
    L = scalar_leaves(E, entry, mod, depth)
    out = []
    ints = [l for l in L if l.kind in ('int64', 'int32', 'idx', 'off')]
    bools = [l for l in L if l.kind == 'bool']
    tails = [l for l in L if l.kind == 'tail']
    heads = [l for l in L if l.kind == 'head']

    lens = list(E.len_terms) + [t for f in getattr(E, 'len_fns', []) for t in f(E, entry)]

    def e0(l):
        return l.get(entry, depth)

    def add(name, fn):
        out.append(Cand(name, fn))
    # index leaves: increasing from the entry value
    for l in ints:
        x0 = e0(l)
        add('%s >= entry' % l.name, lambda E, s, d, l=l, x0=x0: z3.UGE(l.get(s, d), x0))
        for n in lens:
            if l.kind in ('int64', 'idx', 'off'):
                add('%s <= %s' % (l.name, n), lambda E, s, d, l=l, n=n: z3.ULE(l.get(s, d), n))
            else:
                add('%s <= %s' % (l.name, n), lambda E, s, d, l=l, n=n: z3.ULE(w64(l.get(s, d)), n))
    for a in range(len(ints)):
        for b in range(a + 1, len(ints)):
            x, y = ints[a], ints[b]
            d0 = simp(w64(e0(x)) - w64(e0(y)))
            for b in bools:
                add('%s => %s - %s constant' % (b.name, x.name, y.name), lambda E, s, d, x=x, y=y, d0=d0, b=b: z3.Implies(b.get(s, d), w64(x.get(s, d)) - w64(y.get(s, d)) == d0))
            add('%s - %s constant' % (x.name, y.name), lambda E, s, d, x=x, y=y, d0=d0: w64(x.get(s, d)) - w64(y.get(s, d)) == d0)
    # error queues
    for l in heads:
        x0 = e0(l)
        add('%s unchanged' % l.name, lambda E, s, d, l=l, x0=x0: l.get(s, d) == x0)
    for l in tails:
        x0 = e0(l)
        add('%s >= entry' % l.name, lambda E, s, d, l=l, x0=x0: z3.And(z3.UGE(l.get(s, d), x0), z3.ULT(l.get(s, d), bv(1 << 61))))
        add('%s unchanged' % l.name, lambda E, s, d, l=l, x0=x0: l.get(s, d) == x0)
        for hh in heads:
            if hh.key == l.key:
                add('%s <= %s' % (hh.name, l.name), lambda E, s, d, l=l, hh=hh: z3.ULE(hh.get(s, d), l.get(s, d)))
                add('%s >= entry' % hh.name, lambda E, s, d, hh=hh, h0=e0(hh): z3.UGE(hh.get(s, d), h0))
    for l in [l for l in L if l.kind == 'errs']:
        a0 = e0(l)
        t0 = [e0(t) for t in tails if t.key == l.key]
        if t0:
            j = E.skolem_err
            add('%s keeps earlier errors' % l.name, lambda E, s, d, l=l, a0=a0, t0=t0[0]: z3.Implies(z3.ULT(j, t0), z3.Select(l.get(s, d), j) == z3.Select(a0, j)))
    # folds at index leaves
    idx = [l for l in ints if l.kind in ('idx', 'int64', 'int32', 'off')]
    ctx_terms = list(E.len_terms)
    for F, ps in E.fold_list:
        pss = ps(E, entry, h, depth) if callable(ps) else [ps]
        for p in pss:
            for t in idx:
                def tt(s, d, t=t):
                    return w64(t.get(s, d))

                def val(s, d, F=F, p=p, tt=tt):
                    return F(*p, tt(s, d))
                lab = '%s(%s)' % (F.name, t.name)
                if F.kind == 'cnt':
                    forms = [(lab + '==all', lambda s, d, val=val, tt=tt: val(s, d) == tt(s, d)), (lab + '!=0', lambda s, d, val=val: val(s, d) != 0)]
                    add('%s <= index' % lab, lambda E, s, d, val=val, tt=tt: z3.ULE(val(s, d), tt(s, d)))
                    for l in ints:
                        if l.kind in ('int64', 'int32') and l is not t:
                            x0 = e0(l)

                            def ext(s, d, l=l):
                                return w64(l.get(s, d))
                            add('%s == entry + %s' % (l.name, lab), lambda E, s, d, ext=ext, val=val, x0=x0: ext(s, d) == w64(x0) + val(s, d))
                            add('%s == entry + index - %s' % (l.name, lab), lambda E, s, d, ext=ext, val=val, tt=tt, x0=x0: ext(s, d) == w64(x0) + tt(s, d) - val(s, d))
                elif F.kind == 'bool':
                    forms = [(lab, lambda s, d, val=val: val(s, d))]
                elif F.kind == 'set':
                    forms = []
                    for l in [l for l in L if l.kind == 'set']:
                        add('%s == %s' % (l.name, lab), lambda E, s, d, l=l, val=val: l.get(s, d) == val(s, d))
                elif F.kind == 'val':
                    forms = []
                    for l in L:
                        try:
                            if l.get(entry, depth).sort() == F.sort:
                                add('%s == %s' % (l.name, lab), lambda E, s, d, l=l, val=val: l.get(s, d) == val(s, d))
                        except (AttributeError, TypeError):
                            pass
                else:
                    forms = []
                for nm, f in forms:
                    add('%s' % nm, lambda E, s, d, f=f: f(s, d))
                    add('not %s' % nm, lambda E, s, d, f=f: z3.Not(f(s, d)))
                    for b in bools:
                        b0 = e0(b)
                        add('%s <=> %s' % (b.name, nm), lambda E, s, d, f=f, b=b: b.get(s, d) == f(s, d))
                        add('%s <=> not %s' % (b.name, nm), lambda E, s, d, f=f, b=b: b.get(s, d) != f(s, d))
                        add('%s <=> entry and %s' % (b.name, nm), lambda E, s, d, f=f, b=b, b0=b0: b.get(s, d) == z3.And(b0, f(s, d)))
                        add('%s <=> entry or %s' % (b.name, nm), lambda E, s, d, f=f, b=b, b0=b0: b.get(s, d) == z3.Or(b0, f(s, d)))
                    for l in tails:
                        x0 = e0(l)
                        for sgn in (True, False):
                            g = f if sgn else (lambda s, d, f=f: z3.Not(f(s, d)))
                            n2 = nm if sgn else 'not ' + nm
                            add('%s => %s unchanged' % (n2, l.name), lambda E, s, d, g=g, l=l, x0=x0: z3.Implies(g(s, d), l.get(s, d) == x0))
                            add('%s => %s grew' % (n2, l.name), lambda E, s, d, g=g, l=l, x0=x0: z3.Implies(g(s, d), z3.UGT(l.get(s, d), x0)))
    # booleans and queues without folds
    for b in bools:
        b0 = e0(b)
        add('%s unchanged' % b.name, lambda E, s, d, b=b, b0=b0: b.get(s, d) == b0)
        add('%s => entry' % b.name, lambda E, s, d, b=b, b0=b0: z3.Implies(b.get(s, d), b0))
        for l in tails:
            x0 = e0(l)
            add('%s => %s unchanged' % (b.name, l.name), lambda E, s, d, b=b, l=l, x0=x0: z3.Implies(b.get(s, d), l.get(s, d) == x0))
            add('entry and not %s => %s grew' % (b.name, l.name), lambda E, s, d, b=b, l=l, x0=x0, b0=b0: z3.Implies(z3.And(b0, z3.Not(b.get(s, d))), z3.UGT(l.get(s, d), x0)))
    for l in L:
        if l.kind == 'set' or l.kind == 'errs':
            continue
        if l.kind in ('int64', 'int32', 'tail'):
            continue
    for t in E.templates:
        out.extend(t(E, entry, h, L, depth, Cand))
    return out
