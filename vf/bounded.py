"""Bounded checks: run the compiled code of /repo (concrete driver, real adapters and std::regex) on enumerated and seeded
inputs and compare with the independent evaluator. They stand in, labelled bounded, where no contract is proved, and they
provide the failing input for an obligation that fails."""
import json, random, math, itertools, zlib
from . import oracle
from .oracle import Oracle, SchemaError, DontCare
from .drive import lat


def T(v):
    """JSON text of a Python value, as sent to the driver"""
    return json.dumps(v)


# ------------------------------------------------------------------ validation requests
class V:
    """one schema, several documents. aspects: what is compared ('verdict', 'agree', 'ptr', 'schema', 'remote')"""
    def __init__(self, schema, docs, draft=7, strong=True, sdt=True, remotes=None, aspects=('verdict', 'schema'), ad='nlohmann', texts=None, move=''):
        self.move = move
        self.schema, self.docs, self.draft, self.strong, self.sdt, self.remotes, self.aspects, self.ad = schema, docs, draft, strong, sdt, remotes, aspects, ad
        self.texts = texts

    def request(self):
        q = {'op': 'v', 'schema': T(self.schema), 'docs': self.texts or [T(d) for d in self.docs], 'draft': self.draft, 'strong': self.strong,
             'sdt': self.sdt, 'ad': self.ad}
        if self.move:
            q['move'] = self.move
        if self.remotes is not None:
            q['remotes'] = {k: T(v) for k, v in self.remotes.items()}
        return q

    def say(self, d):
        return 'schema %s, document %s, draft %d, %s types, adapter %s%s' % (T(self.schema)[:600], T(d)[:300], self.draft, 'strong' if self.strong else 'weak', self.ad, ', schema moved (%s) after parsing' % self.move if self.move else '')

    def check(self, q, a):
        o = Oracle(self.schema, self.draft, self.strong, self.sdt, self.remotes)
        if 'exc' in a:
            return 'driver: ' + str(a)
        try:
            o.check()
            bad = None
        except SchemaError as e:
            bad = str(e)
        except DontCare:
            return None
        if 'remote' in a and 'remote' in self.aspects:
            r = a['remote']
            if r['live'] or r['bad'] or r['freed'] != sum(1 for u in r['fetched'] if u in self.remotes) or any(n > 1 for u, n in r['fetched'].items() if u in self.remotes):
                return 'remote documents: fetched %s, freed %d, still live %d, wrong frees %d; %s' % (r['fetched'], r['freed'], r['live'], r['bad'], self.say(None))
        if 'err' in a:
            if bad is None and 'schema' in self.aspects:
                return 'schema rejected (%s) although it is well formed: %s' % (a['err'], self.say(None))
            return None
        if bad is not None:
            return 'schema accepted although %s is malformed: %s' % (bad, self.say(None)) if 'schema' in self.aspects else None
        for d, r in zip(self.docs, a['r']):
            if 'exc' in r:
                if 'verdict' in self.aspects or 'agree' in self.aspects:
                    return 'validation throws %r: %s' % (r['exc'], self.say(d))
                continue
            try:
                want = o.accepts(d)
            except DontCare:
                want = None
            except SchemaError as e:
                return None
            if 'verdict' in self.aspects and want is not None and r['ok'] != want:
                return 'verdict %s, expected %s: %s' % (r['ok'], want, self.say(d))
            if 'agree' in self.aspects:
                if not (r['ok'] == r['ok1'] == r['ok2']):
                    return 'verdict depends on collecting errors: %s: %s' % (r, self.say(d))
                if r['ok'] != (r['n'] == 0):
                    return '%d errors with verdict %s: %s' % (r['n'], r['ok'], self.say(d))
                if not r['pre']:
                    return 'errors collected before were changed, or the errors differ between runs: %s' % self.say(d)
            if 'ptr' in self.aspects and want is not None and not r['ok']:
                got = {e['p'] for e in r['errs']}
                for p in got:
                    try:
                        oracle.resolve_pointer(d, p.encode('latin-1').decode('utf-8', 'surrogateescape'), True, uri=False)
                    except (KeyError, DontCare):
                        return 'error pointer %r does not resolve: %s' % (p, self.say(d))
                must = {lat(p) for p in o.must}
                may = {lat(p) for p in o.may} | {''}
                par = {p.rpartition('/')[0] for p in may}
                if not must <= got:
                    return 'no error carries the pointer(s) %s; got %s: %s' % (sorted(must - got), sorted(got), self.say(d))
                if not got <= may | par:
                    return 'error pointer(s) %s of values that did not fail: %s' % (sorted(got - may - par), self.say(d))
        return None


class Hist:
    def __init__(self, schemas, steps, draft=7, strong=True, recreate=False):
        self.schemas, self.steps, self.draft, self.strong, self.recreate = schemas, steps, draft, strong, recreate

    def request(self):
        return {'op': 'h', 'schemas': [T(s) for s in self.schemas], 'steps': [[i, T(d)] for i, d in self.steps], 'draft': self.draft, 'strong': self.strong, 'recreate': self.recreate}

    def check(self, q, a):
        if 'r' not in a:
            return 'history: %s' % a
        os = [Oracle(s, self.draft, self.strong) for s in self.schemas]
        for (i, d), r in zip(self.steps, a['r']):
            try:
                want = os[i].accepts(d)
            except DontCare:
                want = None
            if not (r['ok'] == r['ok1'] == r['ok2']) or (want is not None and r['ok'] != want):
                return 'history: verdicts %s, expected %s for schema %s, document %s after %s' % (r, want, T(self.schemas[i]), T(d), T(self.steps)[:500])
        return None


class Raw:
    """any other request with its own judge"""
    def __init__(self, q, judge):
        self.q, self.judge = q, judge

    def request(self):
        return self.q

    def check(self, q, a):
        return self.judge(a)


# ------------------------------------------------------------------ pools
SCAL = [None, True, False, 0, 1, -1, 2, 3, 7, 1.0, 1.5, 0.5, -2.5, 2.0, 10, 100, 1e15, 2**53, 2**53 + 1, -2**63, 2**63 - 1, 1e19, 1e300, '', 'a', 'b', 'ab', 'abc', 'true',
        'false', 'null', '1', '2', '-1', '1.5', '1.0', ' 1', '1 ', '1x', 'x1', '0x10', '1e2', 'é', '𝄞', 'a\u0000b', 'nan', 'inf', '00', '-0', '.5', '5.']
SMALL = [None, True, False, 0, 1, 1.5, '', 'a', '1', 'true', [], {}, [0], {'a': 0}, [[]], [{}], {'a': {}}, [1, 'a'], {'a': 1, 'b': 'a'}]
NAMES = ['a', 'b', 'c', 'ab', 'aa', '', 'a/b', 'a~b', '~0', '~1', '%41', 'a%2Fb', 'é', ' ', 'x y', '"', '0', '1', 'a\u0000', 'a\u0000b']
PATS = ['a', '^a', 'b$', '^a$', 'a.', '^.$', '[ab]', '^[^a]', 'a|b', 'a*', 'a+', '(ab)+', '^$', '[0-9]', 'a{2}', '^(?!a)', '\\.', '/', '~', 'a?b', '^[a-c]{1,2}$']


def val(r, depth=2, names=NAMES):
    k = r.random()
    if depth <= 0 or k < .5:
        return r.choice(SCAL)
    if k < .75:
        return [val(r, depth - 1, names) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
    return {r.choice(names): val(r, depth - 1, names) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))}


def leaf(r, draft):
    k = r.randrange(8)
    if k == 0:
        return {} if draft != 7 else r.choice([True, {}])
    if k == 1:
        return {'not': {}} if draft == 4 else {'enum': []} if draft == 3 else r.choice([False, {'not': {}}])
    if k == 2:
        return {'type': r.choice(['integer', 'number', 'string', 'array', 'object', 'null', 'boolean'])}
    if k == 3:
        return {'enum': [val(r, 1) for _ in range(r.randrange(1, 4))]}
    if k == 4:
        return {'minimum': r.choice([0, 1, 1.5])}
    if k == 5:
        return {'maxLength': r.choice([0, 1, 2])}
    if k == 6:
        return {r.choice(['minItems', 'maxProperties', 'minProperties', 'maxItems']): r.randrange(3)}
    return {'pattern': r.choice(PATS)}


def schema(r, draft=7, depth=2, kws=None):
    """random schema; kws: keywords to prefer"""
    if depth <= 0:
        return leaf(r, draft)
    allk = ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'items', 'items2', 'contains', 'props', 'required', 'dependencies', 'propertyNames', 'leaf', 'type', 'uniqueItems', 'const']
    if draft == 3:
        allk = ['extends', 'items', 'items2', 'props', 'dependencies', 'leaf', 'type3', 'uniqueItems', 'divisibleBy', 'bounds']
    elif draft == 4:
        allk = [k for k in allk if k not in ('if', 'contains', 'propertyNames', 'const')] + ['multipleOf', 'bounds']
    else:
        allk += ['multipleOf', 'bounds']
    s = {}
    sub = lambda: schema(r, draft, depth - 1, kws)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(kws) if kws and r.random() < .7 else r.choice(allk)
        if k in ('allOf', 'anyOf', 'oneOf') and draft != 3:
            s[k] = [sub() for _ in range(r.randrange(1, 4))]
        elif k == 'extends' and draft == 3:
            s[k] = sub() if r.random() < .4 else [sub() for _ in range(r.randrange(0, 3))]
        elif k == 'not' and draft != 3:
            s[k] = sub()
        elif k == 'if' and draft == 7:
            s['if'] = sub()
            if r.random() < .8:
                s['then'] = sub()
            if r.random() < .8:
                s['else'] = sub()
        elif k == 'items':
            s['items'] = sub()
        elif k == 'items2':
            s['items'] = [sub() for _ in range(r.randrange(0, 4))]
            if r.random() < .7:
                s['additionalItems'] = r.choice([True, False, None]) if r.random() < .5 else sub()
                if s['additionalItems'] is None:
                    del s['additionalItems']
        elif k == 'contains' and draft == 7:
            s[k] = sub()
        elif k == 'props':
            ns = ['a', 'b', 'ab', 'c', '~', 'a/b']
            if r.random() < .7:
                s['properties'] = {n: sub() for n in r.sample(ns, r.randrange(0, 4))}
                if draft == 3:
                    for n in list(s['properties']):
                        if r.random() < .3 and isinstance(s['properties'][n], dict):
                            s['properties'][n]['required'] = r.choice([True, False])
            if r.random() < .5:
                s['patternProperties'] = {n: sub() for n in r.sample(PATS, r.randrange(1, 3))}
            if r.random() < .6:
                s['additionalProperties'] = r.choice([True, False]) if r.random() < .6 else sub()
        elif k == 'required' and draft != 3:
            s[k] = r.sample(NAMES[:8], r.randrange(0, 4))
        elif k == 'dependencies':
            s[k] = {n: (r.sample(['a', 'b', 'c', 'ab'], r.randrange(0, 3)) if r.random() < .5 else sub()) for n in r.sample(['a', 'b', 'c'], r.randrange(1, 3))}
        elif k == 'propertyNames' and draft == 7:
            s[k] = r.choice([True, False, {'maxLength': 1}, {'pattern': r.choice(PATS)}, {'enum': ['a', 'b']}, {'minLength': 2}, {'type': 'string'}])
        elif k == 'type':
            ts = ['integer', 'number', 'string', 'array', 'object', 'null', 'boolean']
            s[k] = r.choice(ts) if r.random() < .5 else r.sample(ts, r.randrange(0, 4))
        elif k == 'type3' and draft == 3:
            ts = ['integer', 'number', 'string', 'array', 'object', 'null', 'boolean', 'any']
            s['type'] = sub() if r.random() < .3 else [r.choice(ts) if r.random() < .6 else sub() for _ in range(r.randrange(0, 4))]
        elif k == 'uniqueItems':
            s[k] = r.choice([True, True, False])
        elif k == 'const' and draft == 7:
            s[k] = val(r, 1)
        elif k == 'multipleOf' and draft != 3:
            s[k] = r.choice([1, 2, 3, 0.5, 0.1, 7])
        elif k == 'divisibleBy' and draft == 3:
            s[k] = r.choice([1, 2, 3, 0.5, 0.1, 7])
        elif k == 'bounds':
            m = r.choice(['maximum', 'minimum'])
            s[m] = r.choice([0, 1, 1.5, 2])
            e = 'exclusive' + m.capitalize()
            if r.random() < .5:
                s[e] = r.choice([True, False]) if draft != 7 else r.choice([0, 1, 1.5, 2])
        else:
            x = leaf(r, draft)
            if isinstance(x, dict):
                s.update(x)
    return s


def random_cases(seed, n, kws, drafts=(7, 4, 3), weak=.25, aspects=('verdict', 'schema'), ndocs=8, dockind=None, depth=2):
    r = random.Random(seed)
    for _ in range(n):
        d = r.choice(drafts)
        s = schema(r, d, r.choice([1, 2, depth]), kws)
        if isinstance(s, bool):
            s = {'allOf': [s]}
        docs = [dockind(r) if dockind and r.random() < .8 else val(r, 3, ['a', 'b', 'ab', 'c', '~', 'a/b', '']) for _ in range(ndocs)]
        yield V(s, docs, d, r.random() >= weak, True, None, aspects)


def arrdoc(r):
    return [val(r, 1) for _ in range(r.randrange(0, 5))]


def objdoc(r):
    return {r.choice(NAMES[:9]): val(r, 1) for _ in range(r.randrange(0, 5))}


# ------------------------------------------------------------------ P01
def p01(seed, n):
    yes, no = {}, {'not': {}}
    for draft in (7, 4):
        leafs = [(True, True), (False, False)] if draft == 7 else [(True, yes), (False, no)]
        for k in ('allOf', 'anyOf', 'oneOf'):
            for m in range(1, 5):
                for bits in itertools.product([False, True], repeat=m):
                    yield V({k: [dict(leafs)[b] for b in bits]}, [1, 'x'], draft)
        for b in (True, False):
            yield V({'not': dict(leafs)[b]}, [1, {}], draft)
    for i, t, e in itertools.product([True, False], [None, True, False], [None, True, False]):
        s = {'if': i}
        if t is not None:
            s['then'] = t
        if e is not None:
            s['else'] = e
        yield V(s, [1, None, {}])
    for t in (True, False):
        yield V({'then': t}, [1])
        yield V({'else': t}, [1])
        yield V(t, [1, 'a', None, [], {}])
    # many sub-schemas: exactly which ones accept, and counters of any width
    for m in (5, 16, 17, 33, 64, 255, 256, 257, 512, 513):
        for hits in ([], [0], [m - 1], [m // 2], [0, m - 1], list(range(m)), list(range(1, m))):
            subs = [i in hits for i in range(m)]
            for k in ('allOf', 'anyOf', 'oneOf'):
                yield V({k: subs}, [1])
    # combinators over value-dependent schemas, all pairs
    vals = [0, 1, 'a', None]
    for k in ('allOf', 'anyOf', 'oneOf'):
        for x, y, z in itertools.product([{'enum': [0]}, {'enum': [0, 1]}, {'type': 'string'}, {'not': {'type': 'integer'}}], repeat=3):
            yield V({k: [x, y, z]}, vals, 4)
    for k in ('allOf', 'anyOf', 'oneOf', 'not', 'extends'):
        for k2 in ('allOf', 'anyOf', 'oneOf', 'not'):
            for x, y in itertools.product([True, False, {'type': 'integer'}, {'minimum': 1}], repeat=2):
                inner = {k2: x if k2 == 'not' else [x, y]}
                if k == 'extends':
                    yield V({'extends': [{'enum': [0]}, {'minimum': 0}]}, vals, 3)
                else:
                    yield V({k: inner if k == 'not' else [inner, y]}, vals)
    # every keyword counts, whatever comes before or after it
    kw = {'minimum': 1, 'maximum': 2, 'multipleOf': 2, 'enum': [1, 2, 3, 4], 'not': {'enum': [1]}, 'type': 'integer', 'anyOf': [{'minimum': 0}]}
    for m in range(1, 4):
        for c in itertools.combinations(kw, m):
            yield V({k: kw[k] for k in c}, [0, 1, 2, 3, 4, 2.5, 'x'], 4)
    yield from random_cases(seed, n, ['allOf', 'anyOf', 'oneOf', 'not', 'if', 'leaf'])


def p02(seed, n):
    acc = lambda *v: {'enum': list(v)}
    arrs = [[], [0], [1], [0, 0], [0, 1], [1, 0], [1, 1], [0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, 0, 0], [0, 0, 0, 1], [0, 1, 2, 3], ['a'], {}, 'x', 0, None, {'0': 1}]
    for draft in (7, 4, 3):
        bools = [True, False] if draft == 7 else []
        for it in [acc(0), acc(0, 1), {}] + bools:
            yield V({'items': it}, arrs, draft)
            yield V({'items': it, 'additionalItems': False}, arrs, draft)
            if draft == 7:
                yield V({'contains': it}, arrs, draft)
                yield V({'contains': it, 'items': acc(0)}, arrs, draft)
        for items in ([], [acc(0)], [acc(0), acc(1)], [acc(0), {}, acc(0)]):
            for add in (None, True, False, {}, acc(0), {'items': acc(0)}):
                s = {'items': items}
                if add is not None:
                    s['additionalItems'] = add
                yield V(s, arrs, draft)
                yield V(s, arrs, draft, False)
        yield V({'additionalItems': False}, arrs, draft)
        yield V({'additionalItems': acc(0)}, arrs, draft)
    # which position fails, long arrays, counters of any width
    for m in (1, 2, 5, 31, 32, 33, 255, 256, 257, 300):
        good = [0] * m
        docs = [good] + [good[:i] + [1] + good[i + 1:] for i in {0, m // 2, m - 1}] + [good + [0], good + [1], good[:-1]]
        yield V({'items': acc(0)}, docs)
        yield V({'items': [acc(0)] * m}, docs)
        for add in (False, acc(0), True):
            yield V({'items': [acc(0)] * m, 'additionalItems': add}, docs)
        yield V({'items': [acc(0)], 'additionalItems': acc(0)}, docs)
        yield V({'contains': acc(1)}, docs)
    yield V({'items': acc(0)}, [[0] * 65537, [0] * 65536 + [1]])
    yield V({'items': [acc(1)], 'additionalItems': acc(0)}, [[1] + [0] * 65600, [1] + [0] * 65536 + [1]])
    yield from random_cases(seed, n, ['items', 'items2', 'contains'], dockind=arrdoc)


def p03(seed, n):
    acc = lambda *v: {'enum': list(v)}
    ns = ['a', 'b', 'ab', 'c']
    objs = [{}] + [dict(zip(c, v)) for m in (1, 2) for c in itertools.combinations(ns, m) for v in itertools.product([0, 1], repeat=m)] + [[], 'a', 0, {'a': 0, 'b': 0, 'ab': 0, 'c': 0}, {'a': 0, 'b': 0, 'ab': 0, 'c': 1}]
    for draft in (7, 4, 3):
        for props in (None, {}, {'a': acc(0)}, {'a': acc(0), 'b': acc(1)}):
            for pats in (None, {}, {'a': acc(0)}, {'^a$': acc(1)}, {'b': acc(0), '^a': acc(0, 1)}):
                for add in (None, True, False, {}, acc(1)):
                    s = {}
                    if props is not None:
                        s['properties'] = props
                    if pats is not None:
                        s['patternProperties'] = pats
                    if add is not None:
                        s['additionalProperties'] = add
                    for strong in (True, False):
                        yield V(s, objs, draft, strong)
    odd = [{k: v} for k in NAMES for v in (0, 1)] + [{'a': 0, 'a\u0000': 1}, {'a\u0000b': 1, 'a\u0000c': 0}]
    for nm in NAMES:
        yield V({'properties': {nm: acc(0)}}, odd)
        yield V({'properties': {nm: acc(0)}, 'additionalProperties': False}, odd)
        yield V({'additionalProperties': False, 'properties': {'q': {}}}, odd)
    for pt in PATS:
        yield V({'patternProperties': {pt: acc(0)}}, odd + objs)
        yield V({'patternProperties': {pt: acc(0)}, 'additionalProperties': False}, odd + objs)
    for pn in (True, False, {}, {'maxLength': 1}, {'minLength': 1}, {'pattern': '^a'}, {'enum': ['a', 'b']}, {'const': 'a'}, {'type': 'string'}, {'type': 'integer'}, {'not': {'enum': ['c']}},
               {'pattern': 'b$', 'maxLength': 2}, {'anyOf': [{'const': 'a'}, {'const': 'ab'}]}, {'format': 'date'}, {'allOf': [{'minLength': 1}, {'maxLength': 1}]}):
        yield V({'propertyNames': pn}, objs + odd + [{'2020-02-29': 0}, {'2021-02-29': 0}])
        yield V({'propertyNames': pn, 'additionalProperties': acc(0)}, objs + odd)
    for m in (2, 10, 255, 256, 257, 300):
        good = {'k%d' % i: 0 for i in range(m)}
        docs = [good] + [dict(good, **{'k%d' % i: 1}) for i in {0, m // 2, m - 1}] + [dict(good, zz=1), dict(good, aa=0)]
        for add in (False, True, acc(0)):
            yield V({'properties': {k: acc(0) for k in good}, 'additionalProperties': add}, docs)
            yield V({'patternProperties': {'^k': acc(0)}, 'additionalProperties': add}, docs)
        yield V({'additionalProperties': acc(0)}, docs)
    yield from random_cases(seed, n, ['props', 'propertyNames'], dockind=objdoc)


def p04(seed, n):
    ns = ['a', 'b', 'c']
    objs = [dict.fromkeys(c, 0) for m in range(4) for c in itertools.combinations(ns, m)] + [[], 'a', 0, None, {'a': None}, {'a': False, 'b': {}}]
    for m in range(4):
        for c in itertools.combinations(ns, m):
            for draft in (7, 4):
                for strong in (True, False):
                    yield V({'required': list(c)}, objs, draft, strong)
            for t in ns:
                for draft in (7, 4, 3):
                    for strong in (True, False):
                        yield V({'dependencies': {t: list(c)}}, objs, draft, strong)
    yield V({'required': ['a', 'a', 'b']}, objs)
    for x, y in itertools.product([['b'], ['c'], {'required': ['c']}, {'maxProperties': 1}, {'properties': {'c': {'enum': [1]}}}, True, False, []], repeat=2):
        for strong in (True, False):
            yield V({'dependencies': {'a': x, 'b': y}}, objs, 7, strong)
    for d3 in ('b', 'c'):
        yield V({'dependencies': {'a': d3}}, objs, 3)
    for bits in itertools.product([True, False, None], repeat=3):
        s = {'properties': {k: ({'required': b} if b is not None else {}) for k, b in zip(ns, bits)}}
        yield V(s, objs, 3)
        yield V({'extends': s}, objs, 3)
        yield V({'properties': {'q': s}}, [{'q': o} for o in objs] + [{}], 3)
    odd = [{k: 0} for k in NAMES] + [{}, {'a': 0, 'b': 0}]
    for nm in NAMES:
        yield V({'required': [nm]}, odd)
        yield V({'dependencies': {nm: ['zz']}}, odd)
        yield V({'dependencies': {nm: False}}, odd)
        yield V({'dependencies': {'a': [nm]}}, odd)
        yield V({'properties': {nm: {'required': True}}}, odd, 3)
    for m in (10, 255, 256, 257, 300):
        ks = ['k%d' % i for i in range(m)]
        full = dict.fromkeys(ks, 0)
        docs = [full] + [{k: 0 for k in ks if k != ks[i]} for i in (0, m // 2, m - 1)] + [{}]
        yield V({'required': ks}, docs)
        yield V({'dependencies': {'k0': ks, 'k1': ['zz']}}, docs)
        yield V({'dependencies': {k: ['k0'] for k in ks}}, docs)
        yield V({'dependencies': {k: {'required': ['k0']} for k in ks}}, docs)
    yield from random_cases(seed, n, ['required', 'dependencies'], dockind=lambda r: {r.choice(['a', 'b', 'c', 'ab']): val(r, 1) for _ in range(r.randrange(0, 4))})


def p05(seed, n):
    counts = [0, 1, 2, 3, 4, 5, 2.0, 7, 2**31, 2**32, 2**32 + 1, 2**63 - 1]
    arrs = [[0] * m for m in range(6)] + [{}, 'abc', 3, None]
    objs = [{str(i): 0 for i in range(m)} for m in range(6)] + [[], 'abc', 3]
    strs = ['', 'a', 'ab', 'abc', 'abcd', 'é', 'éé', 'aé', '€', '€uro', '𝄞', '𝄞𝄞𝄞', 'a\u0000b', '\u0000', '\u07ff\u0800', '\uffff\U00010000', '\U0010ffff', '\x7f\x80', [], {}, 5, 12, -7, 1.5, True, False, None]
    for c in counts:
        for strong in (True, False):
            for draft in (7, 4, 3):
                yield V({'minItems': c}, arrs, draft, strong)
                yield V({'maxItems': c}, arrs, draft, strong)
                if draft != 3:
                    yield V({'minProperties': c}, objs, draft, strong)
                    yield V({'maxProperties': c}, objs, draft, strong)
                yield V({'minLength': c}, strs, draft, strong)
                yield V({'maxLength': c}, strs, draft, strong)
    for m in (127, 128, 255, 256, 257, 65535, 65536, 65537):
        for c in (m - 1, m, m + 1):
            for k in ('minItems', 'maxItems'):
                yield V({k: c}, [[0] * m])
            for ch in ('a', 'é', '𝄞'):
                for k in ('minLength', 'maxLength'):
                    yield V({k: c}, [ch * m, ch * (m // 2)])
            if m < 300:
                for k in ('minProperties', 'maxProperties'):
                    yield V({k: c}, [{str(i): 0 for i in range(m)}])
    # code points of well-formed text: every length class, all pairs of them; and any bytes at all are safe
    cps = [0, 1, 0x41, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]

    def u8(b, want):
        return Raw({'op': 'u8', 's': b.decode('latin-1')}, lambda a: None if 'n' in a and (want is None and 0 <= a['n'] <= len(b) or a['n'] == want) else
                   'code points of %r: %s, expected %s' % (b, a, want))
    for m in range(4):
        for c in itertools.product(cps, repeat=m):
            if m < 3 or (sum(c) % 3 == 0):
                yield u8(''.join(map(chr, c)).encode(), m)
    for b in range(256):
        yield u8(bytes([b]), None)
    lead = [0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xe2, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xff, 0]
    for m in (2, 3, 4):
        for c in itertools.product(lead, repeat=m):
            if m < 4 or zlib.crc32(bytes(c)) % 8 == seed % 8:
                yield u8(bytes(c), None)
    r = random.Random(seed)
    for _ in range(n):
        t = ''.join(chr(r.choice(cps + [r.randrange(0x20, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(0, 200)))
        yield u8(t.encode(), len(t))
        m = r.randrange(0, 12)
        yield V({'minLength': m, 'maxLength': r.randrange(m, 14)}, [t[:r.randrange(0, 16)] for _ in range(5)], 7, r.random() < .7)


def p06(seed, n):
    nums = [0, 1, -1, 2, 0.5, 1.5, -0.5, 0.1, 0.2, 0.30000000000000004, 1e-300, -1e-300, 1e300, 2**53, 2**53 + 2, 2**63 - 1, -2**63, 1e19, 5e-324, 1.7976931348623157e308]
    others = ['1', '1.5', '', 'a', ' 1', '1 ', '1e400', '0.1', '-1', '2', None, True, False, [], {}, '1x', 'nan', 'inf', '-inf', '0x1', '.5', '1.', '1e2', '100']
    for draft in (7, 4, 3):
        for m in nums:
            docs = nums + [math.nextafter(float(m), math.inf), math.nextafter(float(m), -math.inf)] + others
            docs = [d for d in docs if not isinstance(d, float) or math.isfinite(d)]
            for k in ('maximum', 'minimum'):
                e = 'exclusive' + k.capitalize()
                for strong in (True, False):
                    yield V({k: m}, docs, draft, strong)
                    if draft == 7:
                        yield V({e: m}, docs, draft, strong)
                        for m2 in (0, 1, 2):
                            yield V({k: m, e: m2}, docs, draft, strong)
                    else:
                        yield V({k: m, e: True}, docs, draft, strong)
                        yield V({k: m, e: False}, docs, draft, strong)
            yield V({'maximum': m, 'minimum': m}, docs, draft)
    r = random.Random(seed)
    for _ in range(n):
        m = r.choice([r.uniform(-10, 10), r.randrange(-2**62, 2**62), r.uniform(-1e300, 1e300), r.randrange(-5, 5)])
        docs = [r.choice([m, math.nextafter(float(m), r.choice([-1, 1]) * math.inf), -m, r.uniform(-10, 10), r.randrange(-9, 9), repr(r.uniform(-9, 9))]) for _ in range(10)]
        d = r.choice((7, 4, 3))
        s = {}
        for k in r.sample(['maximum', 'minimum'], r.randrange(1, 3)):
            s[k] = m
            if r.random() < .5:
                s['exclusive' + k.capitalize()] = r.random() < .5 if d != 7 else r.choice([m, r.uniform(-9, 9)])
        yield V(s, docs, d, r.random() < .6)


def p07(seed, n):
    ints = [0, 1, -1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 99, 100, -6, 2**31, 2**32, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 2**62]
    fl = [0.5, 1.5, 2.0, 3.0, -3.0, 0.1, 1e18, 9.0, 1e300, 2.0**63, -2.0**63, 1e19, -1e19, 4.35, 7.000001, 1e-9, 0.0, -0.0, 5e-324]
    others = ['4', '5', '1.5', 'x', '', None, True, False, [], {}, '9223372036854775807', '-9223372036854775808', '99999999999999999999', ' 4', '0.3', '3.0']
    divs = [1, 2, 3, 4, 5, 7, 10, 100, 2.0, 3.0, 2**31, 2**62, 2**63 - 1, 1e18]
    fd = [0.5, 0.1, 0.01, 0.25, 1.5, 2.5, 1e-8, 0.123456789, 1e-300, 3.3, 1e19, 1e300, 5e-324]
    for d in divs + fd:
        for draft in (7, 4, 3):
            for strong in (True, False):
                mult = [float(repr(k * 1.0)) * d for k in (1, 2, 3, 7, 10, 1000, 12345, 999999)]
                mult = [x for x in mult if math.isfinite(x)] + [x * d for x in (-3, 17)]
                mult += [float('%.15g' % (k * d)) for k in (3, 6, 7, 19, 23, 37)] if d < 1e290 else []
                mid = [d * (k + .5) for k in (0, 1, 5, 100)] + [d * (k + .01) for k in (1, 7)] if d < 1e290 and d > 1e-290 else []
                docs = ints + fl + others + [m for m in mult + mid if math.isfinite(m) and (isinstance(m, float) or oracle.fits(m))]
                yield V({'divisibleBy' if draft == 3 else 'multipleOf': d}, docs, draft, strong)
    r = random.Random(seed)
    for _ in range(n):
        if r.random() < .5:
            d = r.choice([r.randrange(1, 50), r.randrange(1, 2**63)])
            docs = [r.choice([d * r.randrange(-50, 50), r.randrange(-2**63, 2**63), r.randrange(-99, 99), r.uniform(-99, 99)]) for _ in range(10)]
            docs = [x for x in docs if isinstance(x, float) or oracle.fits(x)]
        else:
            p = r.randrange(1, 9)
            d = r.randrange(1, 10**r.randrange(1, p + 1) + 1) / 10**p
            docs = []
            for _ in range(10):
                k = r.choice([r.randrange(-100, 100), r.randrange(-10**6, 10**6)])
                x = float(repr(k * d)) if r.random() < .3 else k * d
                docs.append(r.choice([x, float('%.*f' % (p, x)), (k + r.uniform(.01, .99)) * d]))
        dr = r.choice((7, 4, 3))
        yield V({'divisibleBy' if dr == 3 else 'multipleOf': d}, docs, dr, r.random() < .8)


def p08(seed, n):
    ts = ['array', 'boolean', 'integer', 'null', 'number', 'object', 'string']
    docs = SCAL + SMALL + [1e18, 2.0**63, -2.0**63, 9.2e18, 1e300, 3.0, -0.0, 1e-5, 2.5e15, '9223372036854775807', '9223372036854775808', '-9223372036854775808', '+5', '1e3', 'TRUE', 'True', '0', '-', '+', '5.0', 'tru']
    for strong in (True, False):
        for draft in (7, 4, 3):
            for t in ts + (['any'] if draft != 4 else []):
                yield V({'type': t}, docs, draft, strong)
                yield V({'type': [t]}, docs, draft, strong)
            for a, b in itertools.combinations(ts, 2):
                yield V({'type': [a, b]}, docs, draft, strong)
            yield V({'type': []}, docs, draft, strong)
        subs = [{'type': 'integer'}, {'enum': ['a']}, {'minimum': 2, 'type': 'number'}, {}, {'type': [{'type': 'null'}]}]
        for s in subs:
            yield V({'type': s}, docs, 3, strong)
            yield V({'type': [s]}, docs, 3, strong)
            yield V({'type': ['null', s]}, docs, 3, strong)
            for s2 in subs:
                yield V({'type': [s, s2, 'boolean']}, docs, 3, strong)
    yield from random_cases(seed, n, ['type', 'type3'])


def p09(seed, n):
    pool = SMALL + [1.0, 2**53, 2**53 + 1, float(2**53), 2**63 - 1, 2**63 - 2, -0.0, 0.0, [1, 2], [2, 1], [1, 2, 3], {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': 1, 'b': 2, 'c': 3}, {'a': 1, 'c': 2}, 'false', 'A', '1.0', '1.5', [None], [False],
                    [0, [1, {'x': [2]}]], [0, [1, {'x': [3]}]], {'a': [1, {'b': None}]}, {'a': [1, {'b': False}]}, 'a\u0000', 'a\u0000b', 'é', {'': 0}, {'': 1}, [[1], [2]], [[2], [1]], [1.5, 'x'], {'a': 1.0}]
    for strong in (True, False):
        for a in pool:
            yield V({'const': a}, pool, 7, strong)
            yield V({'enum': [a]}, pool, 4, strong)
        for a, b in itertools.combinations(pool, 2):
            if zlib.crc32(T([a, b]).encode()) % 3 == seed % 3 or len(T([a, b])) < 9:
                yield V({'enum': [a, b]}, pool, 7, strong)
            yield V({'uniqueItems': True}, [[a, b], [b, a], [a, a], [a, b, a], [b, 7.25, a, b], [[a], [b]], [{'k': a}, {'k': b}]], 7, strong)
        yield V({'enum': []}, pool, 7, strong)
        yield V({'uniqueItems': True}, pool + [[[], {}], [1, True], [0, False], [1, 1.0], ['', None], ['1', 1]], 4, strong)
        yield V({'uniqueItems': False}, [[1, 1], [1, 2]], 4, strong)
    for m in (2, 3, 5, 33, 257, 300):
        base = list(range(m))
        docs = [base]
        for i, j in {(0, 1), (0, m - 1), (m - 2, m - 1), (m // 2, m - 1), (0, m // 2)}:
            if i < j:
                docs.append(base[:j] + [base[i]] + base[j + 1:])
        yield V({'uniqueItems': True}, docs)
        yield V({'enum': base}, [0, m - 1, m, m // 2, -1])
    r = random.Random(seed)
    for _ in range(n):
        a = val(r, 3)
        b = mutate(r, a)
        st = r.random() < .6
        yield V({'const': a}, [a, b, val(r, 2)], 7, st)
        yield V({'uniqueItems': True}, [[a, b], [b, a], [val(r, 1) for _ in range(6)]], 7, st)
        yield V({'enum': [val(r, 1), b, val(r, 2)]}, [a, b], 7, st)


def mutate(r, v):
    if isinstance(v, list) and v:
        i = r.randrange(len(v))
        k = r.randrange(4)
        if k == 0:
            return v[:i] + v[i + 1:]
        if k == 1:
            return v[::-1]
        if k == 2:
            return v + [r.choice(SCAL)]
        return v[:i] + [mutate(r, v[i])] + v[i + 1:]
    if isinstance(v, dict) and v:
        i = r.choice(list(v))
        k = r.randrange(4)
        if k == 0:
            return {x: y for x, y in v.items() if x != i}
        if k == 1:
            return dict(reversed(list(v.items())))
        if k == 2:
            return {**{x: y for x, y in v.items() if x != i}, i + 'z': v[i]}
        return {**v, i: mutate(r, v[i])}
    return r.choice(SCAL) if r.random() < .7 else v


def p10(seed, n):
    dates = ['%04d-%02d-%02d' % (y, m, d) for y in (0, 4, 100, 400, 1582, 1700, 1900, 1999, 2000, 2004, 2020, 2021, 2100, 2400, 9999) for m in range(0, 14) for d in (0, 1, 28, 29, 30, 31, 32)]
    dates += ['2020-1-01', '2020-01-1', '20-01-01', '12020-01-01', '-2020-01-01', '2020/01/01', '2020-01-01 ', ' 2020-01-01', '2020-01-01\n', '2020-01-01T', '', 'a', '２020-01-01', '2020-01-0１', '+020-01-01', '202O-01-01', '2020-01-01\u0000', '2020\u0000-01-01', '0x20-01-01', '    -01-01', '2020--1-01']
    times = []
    for h in (0, 1, 9, 10, 12, 19, 20, 22, 23, 24, 25, 99):
        for mi in (0, 1, 29, 59, 60):
            for s in (0, 30, 59, 60, 61):
                for z in ('', 'Z', 'z', '+00:00', '-00:00', '+01:00', '-01:00', '+23:59', '-23:59', '+24:00', '+00:60', '+0:00', '+0000', '-08:00', '+09:30', 'Y', '+05:45'):
                    times.append('%02d:%02d:%02d%s' % (h, mi, s, z))
    for o in range(-1439, 1440, 7):
        t = (1439 + o) % 1440
        for dlt in (0, 1, -1):
            u = (t + dlt) % 1440
            times.append('%02d:%02d:60%s%02d:%02d' % (u // 60, u % 60, '-' if o < 0 else '+', abs(o) // 60, abs(o) % 60))
    times += ['12:00:00.1Z', '12:00:00.123456789012345678Z', '12:00:00.Z', '12:00:00,5Z', '12:00Z', '1:00:00Z', '12:0:00Z', '12:00:0Z', '12:00:00 Z', ' 12:00:00Z', '12:00:00Z ', '12:00:00ZZ', '12:00:00Z+00:00', '12:00:00+1:00', '12:00:00+', 'Z', '', '23:59:60.5Z', '22:59:60.123-01:00',
              '12:00:00\u0000Z', '12:00:00Z\n', '１2:00:00Z', '-1:00:00Z', '12:00:00.1', '23:59:60', '23:58:60', '12:00:00.+01:00']
    ips = ['.'.join(map(str, c)) for c in itertools.product([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, 256, 260, 300, 999], repeat=2) for c in [(c[0], 0, 0, c[1]), (1, c[0], c[1], 1)]]
    ips += ['1.2.3', '1.2.3.4.5', '1.2.3.', '.1.2.3', '1..2.3', 'a.b.c.d', '1.2.3.4 ', ' 1.2.3.4', '1.2.3.4\n', '-1.2.3.4', '+1.2.3.4', '1.2.3.4e0', '1,2,3,4', '1a2.3.4', '1.2.3.0x4', '1234.1.1.1', '0000.1.1.1', '', '1.2.3.1000', '1.2.3.４', '1.2.3.4\u0000', '256.256.256.256', '0.0.0.0', '255.255.255.255', '1 .2.3.4', '1x2.3.4.5']
    dts = [d + t + x for d in ['2020-02-29', '2021-02-29', '2020-13-01', '0000-01-01', '2100-02-29', '2020-12-31', '20-01-01'] for t in 'Tt_ ' for x in ['00:00:00Z', '23:59:60Z', '23:59:60', '12:00:60Z', '12:00:00', '24:00:00Z', '12:00:00+01:00', '00:59:60+01:00', '22:59:60-01:00', '23:59:60+01:00', '']] + ['2020-01-01', '12:00:00Z', '2020-01-01T12:00:00ZT', 'T', '2020-01-01TT12:00:00Z']
    dates += ['%04d-02-%d' % (y, d) for y in list(range(0, 10000, 100)) + list(range(0, 10000, 28)) + list(range(1990, 2030)) for d in (28, 29, 30)]
    for sdt in (True, False):
        for f, ds in (('date', dates), ('time', times), ('date-time', dts), ('ipv4', ips)):
            for i in range(0, len(ds), 60):
                yield V({'format': f}, ds[i:i + 60], 7, True, sdt)
        for f in ('date', 'time', 'date-time', 'ipv4', 'email', 'uuid', 'dat', 'DATE', 'date ', 'ipv6', 'uri', 'x'):
            for strong in (True, False):
                for draft in (7, 4, 3):
                    yield V({'format': f}, [0, 1.5, None, True, [], {}, '' if f not in ('date', 'time', 'date-time', 'ipv4') else 5, ['x'], {'a': 1}, 'junk' if f not in ('date', 'time', 'date-time', 'ipv4') else 6, 'junk'], draft, strong, sdt)
    r = random.Random(seed)
    cur = {'date': '2020-02-28', 'time': '23:59:60Z', 'date-time': '2020-02-28T12:34:56+01:30', 'ipv4': '192.168.10.254'}
    for _ in range(n):
        f = r.choice(list(cur))
        docs = []
        for _ in range(12):
            s = list(cur[f])
            for _ in range(r.randrange(1, 3)):
                i = r.randrange(len(s))
                k = r.randrange(4)
                if k == 0:
                    s[i] = r.choice('0123456789')
                elif k == 1:
                    s[i] = r.choice('-:.TZtz+ a/')
                elif k == 2:
                    s.insert(i, r.choice('0123456789-:.+Z'))
                elif len(s) > 1:
                    del s[i]
            docs.append(''.join(s))
        yield V({'format': f}, docs, 7, r.random() < .7, r.random() < .5)


def p11(seed, n):
    A = ('agree',)
    gens = [p01(seed, 0), p02(seed, 0), p03(seed, 0), p04(seed, 0), p05(seed, 0), p06(seed, 0), p07(seed, 0), p08(seed, 0), p09(seed, 0), p10(seed, 0)]
    k = 0
    for g in gens:
        for c in g:
            k += 1
            if isinstance(c, V) and len(T(c.docs)) < 20000 and (k + seed) % 7 == 0:
                c.aspects = A
                yield c
    yield from random_cases(seed, n, None, aspects=A, weak=.4, depth=3)
    yield from random_cases(seed + 1, n, ['props', 'items2', 'dependencies'], aspects=A, weak=.4, dockind=objdoc)


def p12(seed, n):
    A = ('ptr',)
    r = random.Random(seed)
    names = ['a', 'a/b', 'a~b', '~1', '~0', '/', '~', '', '0', 'é', '~~//', '%41', '"x"', ' ', 'a\u0000b', '-', '~01', 'b~1c']
    for nm in names:
        for nm2 in names:
            yield V({'properties': {nm: {'properties': {nm2: {'type': 'string'}}}}}, [{nm: {nm2: 1}}, {nm: {nm2: 1, 'z': 2}}], 7, True, True, None, A)
        yield V({'additionalProperties': {'items': {'enum': [0]}}}, [{nm: [0, 1, 0, 1]}], 7, True, True, None, A)
        yield V({'patternProperties': {'': {'items': [{}, {'properties': {nm: {'type': 'null'}}}]}}}, [{nm: [0, {nm: 1}]}], 7, True, True, None, A)
        yield V({'dependencies': {nm: {'properties': {nm: {'type': 'null'}}}}}, [{nm: 3}], 7, True, True, None, A)
        yield V({'items': {'allOf': [{'properties': {nm: {'minimum': 3}}}]}}, [[{nm: 3}, {nm: 2}]], 7, True, True, None, A)
    for m in (10, 11, 12, 100, 101, 256, 257, 1001):
        yield V({'items': {'enum': [0]}}, [[0] * (m - 1) + [1]], 7, True, True, None, A)
        yield V({'items': [{}] * 3, 'additionalItems': {'enum': [0]}}, [[0] * (m - 1) + [1]], 7, True, True, None, A)
    for _ in range(n):
        # object schemas whose failures must be reported exactly where they are
        def sch(d):
            k = r.randrange(5)
            if d == 0 or k == 0:
                return r.choice([{'type': 'integer'}, {'minimum': 2}, {'enum': [0, 'x']}, {'maxLength': 1}, {'required': ['a']}, {'minItems': 1}])
            if k == 1:
                return {'items': sch(d - 1)}
            if k == 2:
                return {'items': [sch(d - 1), sch(d - 1)], 'additionalItems': sch(d - 1)}
            if k == 3:
                return {'properties': {x: sch(d - 1) for x in r.sample(names, 3)}, 'additionalProperties': sch(d - 1)}
            return {'allOf': [sch(d - 1), sch(d - 1)]}
        yield V(sch(3), [val(r, 3, names) for _ in range(6)], 7, True, True, None, A)
    yield from random_cases(seed + 1, n // 2, None, aspects=A, weak=0, drafts=(7, 4))
    # histories of the queue
    for _ in range(n):
        ops, model, out = [], [], []
        cnt = 0
        for _ in range(r.randrange(1, 30)):
            k = r.random()
            if k < .45:
                path = [[r.choice('oa'), r.choice(names) if r.random() < .7 else str(r.randrange(20))] for _ in range(r.randrange(0, 4))]
                cnt += 1
                d = 'e%d' % cnt + r.choice(['', '\u0000x', 'é'])
                ops.append(['push', [[g, lat(s)] for g, s in path], lat(d)])
                ptr = ''.join('/' + oracle.esc(s) for g, s in path)
                ctx = ['<root>'] + ['["%s"]' % s if g == 'o' else '[%s]' % s for g, s in path]
                model.append((lat(d), lat(ptr), [lat(c) for c in ctx]))
            elif k < .6:
                cnt += 1
                ops.append(['copy', 'c%d' % cnt])
                model.append(('c%d' % cnt, '/copied', ['x', 'y']))
            else:
                ops.append(['pop'])
                out.append({'ok': True, 'd': model[0][0], 'p': model[0][1], 'c': model[0][2]} if model else {'ok': False, 'd': 'untouched', 'p': '', 'c': []})
                if model:
                    model.pop(0)
            out.append({'n': len(model), 'it': len(model)})
        yield Raw({'op': 'q', 'ops': ops}, lambda a, out=out, ops=ops: None if a == out else 'error queue: %s gave %s, expected %s' % (json.dumps(ops), json.dumps(a)[:900], json.dumps(out)[:900]))


def p13(seed, n):
    strs = ['', 'a', 'b', 'ab', 'aa', 'aab', 'ba', 'bab', 'c', 'abc', '0', 'a0', 'a.b', 'é', 'aé', '/', '~', 'a/b', 'cab', 'bb', 'abab', 'A', 'xay', 'a\u0000b', '\u0000', 5, 10, True, None, [], {}]
    for p in PATS + ['a\u0000b', 'é', '^é$', '[é]?x']:
        for strong in (True, False):
            for draft in (7, 4, 3):
                yield V({'pattern': p}, strs, draft, strong)
        yield V({'patternProperties': {p: {'enum': [0]}}}, [{s: v} for s in strs if isinstance(s, str) for v in (0, 1)])
    # the same validator, patterns again and again, in every order, equal prefixes, patterns that differ by one character
    r = random.Random(seed)
    ps = ['^a$', '^a', 'a$', 'a', '^b$', 'b', '', '^', 'a|b', 'a{2}', 'a{3}', '[ab]', '[a-b]', 'ab', 'aB', 'a.b', 'a\\.b', 'a\u0000b', 'a\u0000c']
    for _ in range(n):
        schemas = []
        for _ in range(r.randrange(1, 5)):
            k = r.randrange(4)
            p, q = r.choice(ps), r.choice(ps)
            schemas.append([{'pattern': p}, {'patternProperties': {p: {'pattern': q}, q: {'maxLength': 1}}}, {'anyOf': [{'pattern': p}, {'pattern': q}]}, {'propertyNames': {'pattern': p}, 'additionalProperties': {'pattern': q}}][k])
        docs = [r.choice([s for s in strs if isinstance(s, str)]) if r.random() < .5 else {r.choice(['a', 'b', 'ab', 'c', 'aa']): r.choice(['a', 'b', 'ab', 'c'])} for _ in range(4)]
        yield Hist(schemas, [[r.randrange(len(schemas)), r.choice(docs)] for _ in range(r.randrange(2, 14))], 7, r.random() < .7)
    # each schema is destroyed before the next is built, so that a later one may lie where an earlier one was
    for _ in range(60 + n // 10):
        qs = r.sample(['^a$', '^b$', '^c$', '^a', '^ab', 'b$', 'x.*', '^.$'], 3)
        doc = r.choice(['a', 'b', 'ab', 'xb', 'c'])
        mk = r.choice([lambda q: {'pattern': q}, lambda q: {'patternProperties': {q: {'enum': [0]}}}, lambda q: {'propertyNames': {'pattern': q}}, lambda q: {'not': {'pattern': q}}])
        d = doc if 'pattern' in T(mk('x')) and 'rop' not in T(mk('x')) else {doc: 1}
        yield Hist([mk(q) for q in qs], [[r.randrange(3), d] for _ in range(12)], 7, True, True)
    many = ['p%d$' % i for i in range(300)]
    yield Hist([{'pattern': p} for p in many], [[i, 'xp%d' % j] for i in range(0, 300, 3) for j in (i, i + 1)] + [[i, 'xp%d' % i] for i in range(0, 300, 3)])


def p14(seed, n):
    docs = [{'a': {'b': [10, 20, {'c': 'd'}], '': 'empty', '/': 's', '~': 't', '~1': 'u', '~0': 'w', 'm~n': 8, 'a/b': 1, 'c%d': 2, ' ': 7, '//': 'two', '~~': 'tt', '~//': 'tss', '///': 'three', '~0~1': 'lit', '0': 'zero', '00': 'zz', '-': 'dash', '%41': 'pct', 'é': 'e', 'A': 'AA', '01': 'x', '\u0000': 'nul', 'a\u0000b': 'anb'}, '': {'': 5}},
            [[1, 2, 3], [], [[0] * 12, {'x': 1}], 'str', None, True, 1.5], 'scalar', 5, None, [], {}, list(range(130))]
    toks = ['a', 'b', '', '0', '1', '2', '3', '11', '12', '00', '01', '-', '-1', '+1', '1 ', ' 1', '1x', '~0', '~1', '~01', '~10', '~1~1', '~0~0', '~0~1~1', '~1~1~1', '~00', '~0~01', 'm~0n', 'a~1b', '%41', '%2541', '%7E1', '%7e0', '%2F', '~0~1', 'c%25d', ' ', '%20', '%', '%4', '%zz', '%4g', '%g4', 'c%', 'x', '1e0', '0x1', '1.0', 'é', '%C3%A9',
            '4294967296', '18446744073709551616', '18446744073709551617', '9223372036854775808', '129', '130', '%00', 'a%00b', '%30', '%31', '%2d', '１', '%+1', '% 1', '%1 ']

    def case(doc, p, strict):
        try:
            want = oracle.resolve_pointer(doc, p, strict)
        except KeyError:
            want = KeyError
        except DontCare:
            want = DontCare

        def judge(a):
            if want is DontCare:
                return None if 'v' in a or 'exc' in a else str(a)
            if want is KeyError:
                return None if 'exc' in a else 'pointer %r (%s) resolves to %s in %s; it should not resolve' % (p, 'strict' if strict else 'lenient', T(a)[:200], T(doc)[:300])
            if 'v' not in a:
                return 'pointer %r (%s) does not resolve in %s: %s' % (p, 'strict' if strict else 'lenient', T(doc)[:300], a)
            return None if json.dumps(a['v'], sort_keys=True) == json.dumps(latin(want), sort_keys=True) else 'pointer %r resolves to %s in %s, expected %s' % (p, T(a['v'])[:300], T(doc)[:300], T(want)[:300])
        return Raw({'op': 'p', 'doc': T(doc), 'ptr': lat(p), 'strict': strict}, judge)
    for doc in docs:
        for strict in (True, False):
            for p in ['', '/', '//', '///', 'a', '0', '#', '#/a', ' /a', '/a/', '/a//', '//a', '~', '%2Fa']:
                yield case(doc, p, strict)
            for t in toks:
                yield case(doc, '/' + t, strict)
                yield case(doc, '/a/' + t, strict)
                yield case(doc, '/0/' + t, strict)
                for t2 in ('b', '0', '2', '', 'x', '11'):
                    yield case(doc, '/%s/%s' % (t, t2), strict)
                    yield case(doc, '/a/b/%s/%s' % (t, t2), strict)
                    yield case(doc, '/2/%s/%s' % (t2, t), strict)
    r = random.Random(seed)
    for _ in range(n):
        doc = val(r, 4)
        cur, p = doc, ''
        while True:
            if isinstance(cur, list) and cur and r.random() < .9:
                i = r.randrange(len(cur))
                cur, p = cur[i], p + '/%d' % i
            elif isinstance(cur, dict) and cur and r.random() < .9:
                k = r.choice(list(cur))
                e = oracle.esc(k).replace('%', '%25')
                if r.random() < .3:
                    e = ''.join('%%%02x' % b for b in e.encode())
                cur, p = cur[k], p + '/' + e
            else:
                break
        if r.random() < .5:
            i = r.randrange(len(p) + 1)
            p = r.choice([p[:i] + r.choice('/~01%-a') + p[i:], p[:i] + p[i + 1:], p + '/' + r.choice(toks)])
        yield case(doc, p, r.random() < .6)


def latin(v):
    if isinstance(v, str):
        return lat(v)
    if isinstance(v, list):
        return [latin(x) for x in v]
    if isinstance(v, dict):
        return {lat(k): latin(x) for k, x in v.items()}
    return v


def p15(seed, n):
    refs = ['', '#', '##', '#/a', 'x', 'x#', 'x#y', 'x#y#z', '#y#z', 'http://h/p#/a/b', 'urn:x:y#f', 'a/b/c', '/abs#', '#%23', 'x#/~0~1', '\u0000#\u0000', 'é#é', 'http://h#', '?q#f', ' #', 'a#\u0000b']

    def ref(s):
        u, h, f = s.partition('#')

        def judge(a):
            wu = lat(u) if u else None
            gp = a.get('p', 0)
            if (a.get('u', 0) or None) != wu:
                return 'document part of %r is %r, expected %r' % (s, a.get('u'), wu)
            if h and f:
                return None if gp == lat(f) else 'fragment of %r is %r, expected %r' % (s, gp, f)
            return None if gp in (None, '') else 'fragment of %r is %r, expected none' % (s, gp)
        return Raw({'op': 'ref', 's': lat(s)}, judge)
    for s in refs:
        yield ref(s)
    r = random.Random(seed)
    for _ in range(n):
        yield ref(''.join(r.choice('#/ab:~%?.é') for _ in range(r.randrange(0, 12))))

    def uri(b, rel):
        try:
            want = oracle.merge_uri(b, rel)
        except DontCare:
            want = None
        return Raw({'op': 'uri', 'b': lat(b), 'r': lat(rel)}, lambda a: None if want is None or a.get('v') == lat(want) else
                   'resolving %r against %r gives %s, expected %r' % (rel, b, a, want))
    bases = ['http://h/a/b', 'http://h/a/b/', 'http://h/', 'http://h/a/b.json', 'https://x.y.z/p/q/r?s', 'http://h:80/a', 'file:///a/b', 'http://h/a/b#f', 'http://h/a?x=/y/z', 'http://h/a#/p/q', 'a/b/c', 'a', '', '../a/b', '../../x', './a/b', '../..', '/a/b', '/a/../b/c', 'a/b#f', 'a/../../b', '../../../a/']
    rels = ['', 'c', 'c/d', '/c', '/', '#f', '?q', 'http://z/k', 'https://z', 'urn:a:b', 'ftp://x/y', '../c', './c', '../../c', 'c#f', 'c?q', 'c/', '#/definitions/a', '#', '/x/y#z', 'urn:uuid:1', 'c.json#/a/b', 'c?q=/a', '.', '..', 'a/../b', 'a/./b', '../../../c', '../../../../c#f', '../../..//c', 'a/../../c', '../a/../../c']
    for b in bases:
        for x in rels:
            yield uri(b, x)


def throws(a):
    m = a.get('remote', {})
    if 'err' not in a:
        return 'an exception of the fetch callback does not reach the caller: %s' % a
    return None if not m.get('bad') and m.get('live') == 0 else 'documents left behind after the fetch callback threw: %s' % m


def p16(seed, n):
    A = ('verdict', 'schema', 'remote')
    acc = lambda *v: {'enum': list(v)}
    vals = [0, 1, 'a', {}, {'a': 0}, {'a': 1}, {'a': {'a': 1}}, {'a': {'a': 0}}, [0], [1]]
    for draft in (7, 4, 3):
        for nm in NAMES:
            e = oracle.esc(nm).replace('%', '%25')
            yield V({'definitions': {nm: acc(0)}, 'properties': {'a': {'$ref': '#/definitions/' + e}}}, vals, draft, True, True, None, A)
            yield V({'definitions': {nm: acc(0), 'zz': acc(1)}, 'properties': {'a': {'$ref': '#/definitions/' + e}, 'b': {'$ref': '#/definitions/zz'}}}, vals + [{'a': 0, 'b': 1}, {'a': 1, 'b': 1}, {'a': 0, 'b': 0}], draft, True, True, None, A)
        # recursion through a reference to the root
        yield V({'properties': {'a': {'$ref': '#'}, 'v': acc(0)}, 'additionalProperties': False}, [{}, {'a': {}}, {'a': {'a': {'v': 0}}}, {'a': {'a': {'v': 1}}}, {'a': {'b': 0}}, {'a': 3}], draft, True, True, None, A)
        yield V({'definitions': {'n': {'properties': {'a': {'$ref': '#/definitions/n'}, 'v': acc(0)}}}, 'properties': {'a': {'$ref': '#/definitions/n'}}}, [{'a': {'a': {'v': 1}}}, {'a': {'a': {'v': 0}}}, {'a': {'v': 1}}], draft, True, True, None, A)
        # references used at several places, chains, siblings of $ref
        for chain in (1, 2, 3, 6):
            defs = {'d%d' % i: {'$ref': '#/definitions/d%d' % (i + 1)} for i in range(chain)}
            defs['d%d' % chain] = acc(0)
            for k in range(chain + 1):
                yield V({'definitions': defs, 'properties': {'a': {'$ref': '#/definitions/d%d' % k}, 'b': {'$ref': '#/definitions/d0'}}}, vals + [{'a': 0, 'b': 1}, {'b': 0}, {'b': 1}], draft, True, True, None, A)
        for bad in ('#/definitions/none', '#/definitions/x/y', '#nope', '#/properties/zz', '#/definitions/x~2' if False else '#/nope'):
            yield V({'definitions': {'x': acc(0)}, 'properties': {'a': {'$ref': bad}}}, vals, draft, True, True, None, A)
        for cyc in (1, 2, 3):
            defs = {'d%d' % i: {'$ref': '#/definitions/d%d' % ((i + 1) % cyc)} for i in range(cyc)}
            yield V({'definitions': defs, 'properties': {'a': {'$ref': '#/definitions/d0'}}}, vals, draft, True, True, None, A)
            yield V({'definitions': defs, 'items': {'$ref': '#/definitions/d0'}}, vals, draft, True, True, None, A)
    # two places whose names differ only in characters that need escaping are different places
    for x, y in itertools.permutations(['a/b', 'a~1b', 'a', 'a~b', 'a~0b', '~', '~0', '~00', '%', '%25', '%2525', 'a%2Fb', 'b'], 2):
        s = {'properties': {x: acc(0), y: acc(1)}}
        docs = [{x: a, y: b} for a in (0, 1) for b in (0, 1)]
        yield V(s, docs, 7, True, True, None, A)
        s = {'properties': {x: {'properties': {'k': acc(0)}}, y: {'properties': {'k': acc(1)}}, 'r': {'$ref': '#/properties/%s' % oracle.esc(x).replace('%', '%25')}}}
        yield V(s, [{x: {'k': a}, y: {'k': b}, 'r': {'k': c}} for a in (0, 1) for b in (0, 1) for c in (0, 1)], 7, True, True, None, A)
        s = {'properties': {'a': {'properties': {'b': acc(0)}}, 'a/properties/b': acc(1), 'r': {'$ref': '#/properties/a/properties/b'}, 'q': {'$ref': '#/properties/a~1properties~1b'}}}
    yield V(s, [{'a': {'b': a}, 'a/properties/b': b, 'r': c, 'q': d} for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)], 7, True, True, None, A)
    # places of the same name under different keywords
    kws = {'properties': ('a', lambda v: {'a': v}), 'patternProperties': ('a', lambda v: {'a': v}), 'dependencies': ('a', lambda v: {'a': v}), 'definitions': ('a', lambda v: {})}
    one = {'not': acc(0)}
    for pos in ['/additionalProperties', '/items', '/not', '/propertyNames', '/contains', '/if', '/then', '/else', '/allOf/0', '/anyOf/1', '/oneOf/0', '/properties/a', '/patternProperties/a', '/dependencies/a', '/definitions/a']:
        s = {'additionalProperties': acc(0, 1), 'items': acc(0), 'not': acc(7), 'propertyNames': {'maxLength': 3}, 'contains': acc(1, 0), 'if': acc(0), 'then': acc(0, 1, 2), 'else': {'not': acc(5)}, 'allOf': [{'not': acc(8)}], 'anyOf': [acc(0), {}], 'oneOf': [{'not': acc(9)}],
             'definitions': {'a': acc(3)}, 'properties': {'a': acc(0), 'ref': {'$ref': '#' + pos}}, 'patternProperties': {'a': acc(0, 1)}, 'dependencies': {'a': {'minProperties': 1}}}
        yield V(s, [{'ref': x} for x in (0, 1, 2, 3, 5, 7, 8, 9, 'abcd', {}, [1], [2], {'abcd': 0})] + [{'a': 0}, {'a': 1}], 7, True, True, None, A)
    # the object that holds named schemas is itself a place that can be referred to
    for draft in (7, 4):
        for where in ('/properties', '/patternProperties', '/definitions', '/dependencies', ''):
            for inner in ({}, {'a': acc(0)}, {'not': {}}, {'minimum': 3}, {'enum': [5]}):
                s = {k: {'zq': acc(8)} for k in ('properties', 'patternProperties', 'definitions', 'dependencies')}
                s.update(additionalProperties={'enum': [1, 2]}, items=acc(3), propertyNames={'minLength': 1}, **({'not': acc(4)} if draft == 7 else {}))
                if where:
                    s[where[1:]] = inner if where != '/dependencies' or all(isinstance(x, (dict, list)) for x in inner.values()) else {'a': acc(0)}
                if where in ('/properties', '/patternProperties') and not all(isinstance(x, dict) for x in s[where[1:]].values()):
                    continue
                yield V({'definitions': {'h': s}, 'properties': {'x': {'$ref': '#/definitions/h'}, 'y': {'$ref': '#/definitions/h' + where}}}, [{'y': y} for y in (0, 1, 3, 4, 5, 'x', {}, {'a': 1}, {'zq': 8}, {'q': 1})] + [{'x': y, 'y': y} for y in (1, {'a': 0}, {'q': 1}, {'q': 9})], draft, True, True, None, A)
                yield V({'properties': {'y': {'$ref': '#/definitions/h' + where}, 'x': {'$ref': '#/definitions/h'}}, 'definitions': {'h': s}}, [{'y': y} for y in (0, 1, 3, 4, 5, 'x', {}, {'a': 1}, {'zq': 8}, {'q': 1})] + [{'x': y, 'y': y} for y in (1, {'a': 0}, {'q': 1}, {'q': 9})], draft, True, True, None, A)
                yield V({'properties': {'x': s, 'y': {'$ref': '#/properties/x' + where}}}, [{'y': y} for y in (0, 1, 3, 4, 5, 'x', {}, {'a': 1}, {'zq': 8}, {'q': 1})] + [{'x': y, 'y': y} for y in (1, {'a': 0}, {'q': 1}, {'q': 9})], draft, True, True, None, A)
    # $id
    yield V({'$id': 'http://x/root.json', 'definitions': {'a': {'$id': 'a.json', 'enum': [0]}}, 'properties': {'a': {'$ref': 'http://x/a.json'}}}, vals, 7, True, True, None, A)
    yield V({'definitions': {'a': {'$id': '#anchor', 'enum': [0]}}, 'properties': {'a': {'$ref': '#anchor'}}}, vals, 7, True, True, None, A)
    yield V({'definitions': {'a': {'id': '#anchor', 'enum': [0]}}, 'properties': {'a': {'$ref': '#anchor'}}}, vals, 4, True, True, None, A)
    yield V({'$id': 'http://x/root.json', 'properties': {'a': {'$ref': 'http://x/root.json'}, 'v': acc(0)}}, [{'a': {'v': 0}}, {'a': {'v': 1}}, {'v': 1}], 7, True, True, None, A)
    yield V({'definitions': {'a': {'$id': 'urn:x:a', 'enum': [0]}, 'b': {'$id': 'urn:x:b', 'enum': [1]}}, 'properties': {'a': {'$ref': 'urn:x:a'}, 'b': {'$ref': 'urn:x:b'}}}, [{'a': x, 'b': y} for x in (0, 1) for y in (0, 1)], 7, True, True, None, A)
    # remote documents
    rem = {'http://r/1': {'definitions': {'z': acc(0), 'chain': {'$ref': '#/definitions/z'}, 'far': {'$ref': 'http://r/2#/x'}, 'dead': {'$ref': 'http://r/missing'}, 'loop': {'$ref': '#/definitions/loop'}, 'bad': {'type': 'nope'}}, 'enum': [1], 'minimum': 0},
           'http://r/2': {'x': acc(0), 'y': {'$ref': 'http://r/1#/definitions/z'}, 'type': 'integer'}}
    rr = ['http://r/1', 'http://r/1#', 'http://r/1#/definitions/z', 'http://r/1#/definitions/chain', 'http://r/1#/definitions/far', 'http://r/2', 'http://r/2#/x', 'http://r/2#/y', 'http://r/1#/definitions/dead', 'http://r/missing', 'http://r/1#/nope', 'http://r/1#/definitions/loop', 'http://r/1#/definitions/bad', 'http://r/2#/nope/deep']
    for draft in (7, 4, 3):
        for x in rr:
            yield V({'$ref': x}, vals, draft, True, True, rem, A)
            yield V({'properties': {'a': {'$ref': x}}}, vals, draft, True, True, rem, A)
            for y in rr:
                yield V({'properties': {'a': {'$ref': x}, 'b': {'$ref': y}}}, vals + [{'b': 0}, {'b': 1}, {'a': 1, 'b': 1}], draft, True, True, rem, A)
                if draft == 7:
                    yield V({'items': [{'$ref': x}, {'$ref': y}, {'type': 'wrong'}]}, vals, draft, True, True, rem, A)
                    yield V({'definitions': {'q': {'$ref': x}}, 'allOf': [{'$ref': '#/definitions/q'}, {'$ref': y}]}, vals, draft, True, True, rem, A)
    # a callback that throws after documents have been fetched: all of them are freed, each once
    for k in range(1, 4):
        for exc in ('!int', '!std', '!str'):
            for x in (['a', 'b', 'c'], ['a', 'a', 'b']):
                us = ['http://t/%s' % c for c in x[:k]]
                rm = {u: {'definitions': {'z': acc(0)}, 'enum': [0]} for u in us}
                if exc == '!str':
                    rm[us[-1]] = {'properties': {'q': {'$ref': 'http://t/boom'}}}
                rm['http://t/boom'] = '!int' if exc == '!str' else exc
                for s in ({'items': [{'$ref': u} for u in us] + [{'$ref': 'http://t/boom'}]}, {'allOf': [{'$ref': u + '#/definitions/z'} for u in us] + [{'not': {'$ref': 'http://t/boom#/x'}}]}):
                    yield Raw({'op': 'v', 'schema': T(s), 'docs': [], 'draft': 7, 'remotes': {u: v if isinstance(v, str) else T(v) for u, v in rm.items()}}, throws)
    r = random.Random(seed)
    for _ in range(n):
        defs = {}
        nm = r.sample(['a', 'b', 'c', 'a/b', 'a~b', '~1', '%41', 'p q'], 4)
        for k in nm:
            defs[k] = schema(r, 7, 1)
            if r.random() < .4:
                defs[k] = {'$ref': '#/definitions/' + oracle.esc(r.choice(nm)).replace('%', '%25')}
        s = schema(r, 7, 2)
        s = s if isinstance(s, dict) else {'not': s}
        refs = {'p%d' % i: {'$ref': '#/definitions/' + oracle.esc(r.choice(nm)).replace('%', '%25')} for i in range(3)}
        s = {'definitions': defs, 'properties': refs, 'allOf': [s]}
        yield V(s, [{'p%d' % r.randrange(3): val(r, 1), 'p%d' % r.randrange(3): val(r, 1)} for _ in range(8)], 7, True, True, None, A)


# ------------------------------------------------------------------ P17 (the histories of operations are in driver/p17.cpp)
def p17(seed, n):
    r = random.Random(seed)
    for c in itertools.chain(p16(seed, n), p20(seed, max(20, n // 30))):
        if isinstance(c, V) and not isinstance(c.schema, (list, int, float, str, type(None))) and r.random() < .7:
            c.move = r.choice(('construct', 'assign'))
            c.aspects = ('verdict',)
            if not circular(c):
                yield c
    for ref, sid in itertools.product(('#', 'http://x/y', 'http://x/y#', '#/properties/a', 'y', 'http://x/'), ('http://x/y', 'y', 'http://x/y#')):
        for mv in ('construct', 'assign'):
            for draft in (7, 4, 3):
                k = '$id' if draft == 7 else 'id'
                s = {k: sid, 'properties': {'a': {'$ref': ref}}, 'maxItems': 1}
                s['minimum'] = 3
                yield V(s, [{'a': 2}, {'a': 3}, {'a': {'a': 2}}, {'a': {'a': {'a': 3}}}, 2], draft, True, True, {}, ('verdict',), move=mv)


def circular(c):
    try:
        o = Oracle(c.schema, c.draft, c.strong, c.sdt, c.remotes)
        o.check()
    except SchemaError as e:
        return str(e) == 'cycle'
    except DontCare:
        pass
    return False


# ------------------------------------------------------------------ P18
STRICT_AD = ['nlohmann', 'rapidjson', 'picojson', 'jsoncpp', 'boostjson', 'poco']
ALL_AD = STRICT_AD + ['yaml', 'ptree']


def seen_by(v, ad):
    """the value as a loosely typed document type holds it"""
    if ad in STRICT_AD:
        return v
    if isinstance(v, list):
        return [seen_by(x, ad) for x in v]
    if isinstance(v, dict):
        return {k: seen_by(x, ad) for k, x in v.items()} if v or ad == 'yaml' else []
    if ad == 'yaml' and v is None:
        return None
    s = v if isinstance(v, str) else T(v)
    return [] if ad == 'ptree' and s == '' else s


def kind(v):
    return 'null' if v is None else 'bool' if isinstance(v, bool) else 'number' if oracle.is_num(v) else 'string' if isinstance(v, str) else 'array' if isinstance(v, list) else 'object'


def same(a, b):
    """equality of dumped values: numbers by value, a number that a document type stores as double included"""
    if oracle.is_num(a) and oracle.is_num(b):
        return a == b or float(a) == float(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def cast_facts(w, a, say):
    """predicates and casts of one value w against the answer a"""
    k = kind(w)
    is_, mb, as_ = a['is'], a['maybe'], a['as']
    want = {t: t == k for t in ('null', 'bool', 'number', 'string', 'array', 'object')}
    got = {t: is_[t] for t in want}
    if got != want:
        return 'type predicates %s for %s' % (got, say)
    if is_['number'] != (is_['double'] or is_['integer']) or (is_['double'] and is_['integer'] and 'jsoncpp' not in say):
        return 'number, double and integer predicates %s for %s' % (is_, say)
    for t in mb:
        if is_[t] and not mb[t]:
            return '%s is but may not be a %s' % (say, t)
    dc = isinstance(w, str) and oracle.FLOAT.match(oracle.b8(w))
    try:
        d = oracle.maybe_double(w)
    except DontCare:
        d = None
    num = oracle.is_num(w)
    exp = {'null': oracle.maybe_null(w), 'bool': oracle.maybe_bool(w), 'string': oracle.maybe_string(w), 'array': oracle.maybe_array(w), 'object': oracle.maybe_object(w)}
    if d is not None:
        exp['double'] = d
    if not (num and not oracle.is_int(w) and not oracle.fits(int(w) if math.isfinite(w) else 2**70)) and not (oracle.is_int(w) and not oracle.fits(w)):
        exp['integer'] = oracle.maybe_integer(w)
    if say.startswith('std::string'):
        del exp['object']
    for t, e in exp.items():
        if mb[t] != e:
            return 'maybe-predicate of %s is %s for %s' % (t, mb[t], say)
    for t in ('bool', 'double', 'integer', 'string'):
        if mb[t] and as_[t] == 'no':
            return 'the cast of %s to %s fails although it may be one' % (say, t)
        if not mb[t] and as_[t] != 'no' and not (t == 'string' and k == 'null'):
            return 'the cast of %s to %s succeeds although it may not be one' % (say, t)
        if not as_.get(t + '_same', True):
            return 'a failing cast of %s to %s changes its output' % (say, t)
        if not as_.get(t + '_throw', True):
            return 'the two casts of %s to %s disagree' % (say, t)
    if as_['bool'] != 'no' and as_['bool'] != oracle.as_bool(w):
        return 'cast of %s to Boolean gives %s' % (say, as_['bool'])
    if as_['double'] != 'no' and d is not None and as_['double'] != oracle.as_double(w) and as_['double'] is not None:
        return 'cast of %s to double gives %s' % (say, as_['double'])
    if as_['integer'] != 'no' and as_['integer'] != oracle.as_integer(w):
        return 'cast of %s to integer gives %s' % (say, as_['integer'])
    if as_['string'] != 'no' and not (oracle.is_int(w) and not oracle.fits(w)):
        e = {lat(oracle.as_string(w))}
        if num and float(w) == int(w if math.isfinite(w) else 0):      # an integral number held as double or as integer
            e |= {str(int(w)), '%f' % w}
        if as_['string']['s'] not in e:
            return 'cast of %s to string gives %r' % (say, as_['string']['s'])
    return None


def facts_judge(v, ad):
    w = seen_by(v, ad)

    def judge(a):
        say = '%s (%s)' % (T(v)[:300], ad)
        if 'is' not in a:
            return 'driver: %s for %s' % (a, say)
        lw = latin(w)
        if not same(a['dump'], lw):
            return 'reads as %s: %s' % (T(a['dump'])[:300], say)
        e = cast_facts(w, a, say)
        if e:
            return e
        g, is_ = a['get'], a['is']
        if ad in STRICT_AD:
            for t in ('bool', 'double', 'integer', 'number', 'string'):
                r = g[t]
                ok = 'v' in r and r['v'] != 'no'
                if 'v' not in r or (ok != is_[t]):
                    return 'get of %s gives %s but is-predicate %s for %s' % (t, r, is_[t], say)
        for t, tt in (('asize', 'array'), ('osize', 'object')):
            if g[t] != ({'v': len(w)} if is_[tt] else {'v': 'no'}):
                return '%s gives %s for %s' % (t, g[t], say)
        x = a['asArray']
        if a['maybe']['array']:
            items = lw if isinstance(w, list) else []
            if 'exc' in x or not same(x['items'], items) or x['adv'] != x['items'] or x['size'] != len(items):
                return 'as array: %s for %s' % (T(x)[:300], say)
        elif 'exc' not in x and not (w == '' and x['items'] == [] and x['size'] == 0):
            return 'as array: %s for %s' % (T(x)[:300], say)
        x = a['asObject']
        if a['maybe']['object']:
            mem = lw if isinstance(w, dict) else {}
            if 'exc' in x or not same(x['members'], mem) or sorted(x['names']) != sorted(mem) or x['size'] != len(mem) or x['count'] != len(mem) or not x['find']:
                return 'as object: %s for %s' % (T(x)[:300], say)
        elif 'exc' not in x and not (w == '' and x['size'] == 0):
            return 'as object: %s for %s' % (T(x)[:300], say)
        x = a['applyArray']
        items = w if isinstance(w, list) else []
        if a['maybe']['array']:
            if not x['r'] or [{t: i[t] for t in ('null', 'bool', 'number', 'string', 'array', 'object')} for i in x['items']] != [{t: t == kind(i) for t in ('null', 'bool', 'number', 'string', 'array', 'object')} for i in items]:
                return 'applyToArray: %s for %s' % (T(x)[:300], say)
            if x['r2'] != (not items) or x['calls2'] != min(1, len(items)):
                return 'applyToArray with a failing callback: %s for %s' % (T(x)[:300], say)
        elif x['r'] or x['r2'] or x['items'] or x['calls2']:
            return 'applyToArray: %s for %s' % (T(x)[:300], say)
        x = a['applyObject']
        mem = w if isinstance(w, dict) else {}
        if a['maybe']['object']:
            if not x['r'] or {n: [t for t in i if i[t] and t not in ('integer', 'double')] for n, i in x['members'].items()} != {lat(n): [kind(i)] for n, i in mem.items()}:
                return 'applyToObject: %s for %s' % (T(x)[:300], say)
            if x['r2'] != (not mem) or x['calls2'] != min(1, len(mem)):
                return 'applyToObject with a failing callback: %s for %s' % (T(x)[:300], say)
        elif x['r'] or x['r2'] or x['members'] or x['calls2']:
            return 'applyToObject: %s for %s' % (T(x)[:300], say)
        return None
    return judge


STRS = ['1.000', '12.345', '-1.000', '1.234.567', '1,000', '100.000', '1.000,5', '1.00', '10.00.000', '', 'true', 'false', 'TRUE', 'True', 'true ', ' true', 'null', '0', '1', '-1', '+1', '-0', '00', '007', ' 1', '1 ', '\t1', '1\n', '1\u0000', '\u00001', '1x', 'x1', '0x10', '1e2', '1.0', '1.', '.5', '-.5', '1e', '1e+', '1e-3', '1E5', '--1', '-', '+', '.',
        '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '1e400', '-1e400', '1e-400', 'inf', '-inf', 'infinity', 'nan', 'NaN', 'nan(1)', '1,5', '1.000,5', '1,000', '1_000', '1f', '1d', '1l', '0b1', '0o7', '١', 'é', '12345678901234567890',
        '3.14159265358979', '2.2250738585072014e-308', '4.9e-324', '1.7976931348623157e308', '0.1', '123456789.123456789', '1e22', '1e23', '9007199254740993', '1e0', '0e0', '0.0', '-0.0', '1e5.0', '1 2', '1e 5', 'e5', '0x', '0x1p3', '1p3', '1e05', '1.5.5', 'truefalse', 'false\u0000']


def jsonable(v, ad):
    """does the document type itself hold this value? (limits of the JSON libraries, not of valijson)"""
    t = T(v)
    if ad in ('yaml',):
        return False if any(c in t for c in '\\') or '""' in t or ': null' in t else True
    if ad == 'ptree':
        def ok(x):
            if isinstance(x, dict):
                return all(k and ok(y) for k, y in x.items()) and x != {}
            if isinstance(x, list):
                return all(ok(y) for y in x)
            return x != '' and not (isinstance(x, str) and '\u0000' in x)
        return isinstance(v, (list, dict)) and ok(v) or v in ([], {}) if isinstance(v, (list, dict)) else False
    if ad == 'poco':
        def ok(x):
            if isinstance(x, dict):
                return all('\u0000' not in k and ok(y) for k, y in x.items())
            if isinstance(x, list):
                return all(ok(y) for y in x)
            # (Poco's parser rounds negative integers to doubles)
            return not (isinstance(x, str) and '\u0000' in x) and not (oracle.is_int(x) and (not oracle.fits(x) or int(float(x)) != x and x < 0))
        return ok(v)
    if ad in ('picojson', 'jsoncpp', 'boostjson'):
        # (Boost: unsigned integers beyond int64_t are a known finding, see known-findings.txt)
        def ok(x):
            if isinstance(x, dict):
                return all(ok(y) for y in x.values())
            if isinstance(x, list):
                return all(ok(y) for y in x)
            return not (oracle.is_int(x) and not oracle.fits(x))
        return ok(v)
    return True


def p18(seed, n):
    r = random.Random(seed)
    pool = SCAL + STRS + [[], {}, [[]], [{}], {'a': []}, {'a': {}}, [None], [1, 'a', None, True, 1.5, [], {}], {'a': None, 'b': [1], '': 2, 'c': {'d': 'e'}}, list(range(40)), {'k%02d' % i: i for i in range(40)}, {'b': 1, 'a': 2}, ['b', 'a'], {'a\u0000': 1, 'a': 2}, {'a\u0000b': 1, 'a\u0000c': 2, 'a\u0000': 3}]
    for ad in ALL_AD:
        for v in pool:
            if jsonable(v, ad):
                yield Raw({'op': 'f', 'doc': T(v), 'ad': ad}, facts_judge(v, ad))
    for i in range(n):
        v = val(r, 3)
        for ad in ALL_AD:
            if jsonable(v, ad):
                yield Raw({'op': 'f', 'doc': T(v), 'ad': ad}, facts_judge(v, ad))
    # the adapter for property names
    for s in STRS + [v for v in SCAL if isinstance(v, str)] + ['true\u0000', '1\u00002']:
        def judge(a, s=s):
            if 'is' not in a:
                return 'driver: %s' % a
            return cast_facts(s, {'is': a['is'], 'maybe': dict(a['maybe']), 'as': a['as']}, 'std::string %r' % s)
        yield Raw({'op': 'sf', 's': lat(s)}, judge)


# ------------------------------------------------------------------ P19
def pd_case(s):
    b = s if isinstance(s, bytes) else s.encode('utf-8')

    def judge(a):
        say = 'parsing %r as a double' % b
        if not a.get('same'):
            return '%s fails but changes its output' % say
        if not oracle.FLOAT.match(b):
            return None if not a['ok'] else '%s succeeds' % say
        try:
            f = oracle.str_float(b.decode('ascii'))
        except DontCare:
            return None
        if not a['ok']:
            return '%s fails' % say
        g = float.fromhex(a['hex'])
        return None if g == f and math.copysign(1, g) == math.copysign(1, f) else '%s gives %s, expected %s' % (say, a['hex'], f.hex())
    return Raw({'op': 'pd', 's': lat(b)}, judge)


def p19(seed, n):
    r = random.Random(seed)
    for s in STRS + [s for s in SCAL if isinstance(s, str)]:
        yield pd_case(s)
        def judge(a, s=s):
            return cast_facts(s, a, 'std::string %r' % s) if 'is' in a else 'driver: %s' % a
        yield Raw({'op': 'sf', 's': lat(s)}, judge)
        yield Raw({'op': 'f', 'doc': T(s), 'ad': 'nlohmann'}, facts_judge(s, 'nlohmann'))
    for _ in range(n):
        k = r.random()
        if k < .4:
            s = ''.join(r.choice('0123456789.eE+-') for _ in range(r.randrange(1, 10)))
        elif k < .7:
            s = repr(r.uniform(-1, 1) * 10.0 ** r.randrange(-300, 300))
            if r.random() < .4:
                i = r.randrange(len(s) + 1)
                s = s[:i] + r.choice(' ,x.\u0000e-+0_\'"') + s[i:]
        elif k < .9:
            s = str(r.randrange(-10**r.randrange(1, 25), 10**r.randrange(1, 25)))
            if r.random() < .5:
                i = r.randrange(len(s) + 1)
                s = s[:i] + r.choice(' ,x.\u0000e-+0_\'"') + s[i:]
        else:
            s = ''.join(r.choice('0123456789') for _ in range(r.randrange(15, 60)))
            s = s[:r.randrange(1, 20)] + '.' + s
        yield pd_case(s)
        def judge(a, s=s):
            return cast_facts(s, a, 'std::string %r' % s) if 'is' in a else 'driver: %s' % a
        yield Raw({'op': 'sf', 's': lat(s)}, judge)
        if r.random() < .3:
            yield V({'type': ['integer', 'boolean'][r.randrange(2)]}, [s], 7, False)
            yield V({'minimum': 3, 'maximum': 20}, [s], 7, False)


# ------------------------------------------------------------------ P21
def p21(seed, n):
    r = random.Random(seed)
    pool = [x for x in SMALL] + [[1, [2, [3, {'a': [4, {'b': 5}]}]]], {'a': {'b': {'c': [1, {'d': None}]}}}, 'x' * 3000, list(range(300)), {'k%d' % i: {'v': [i]} for i in range(60)}, 9007199254740993, 1.5, -0.0, 1e300]

    def fz(v, w, ad):
        def judge(a):
            if 'f' not in a:
                return 'driver: %s for %s' % (a, T(v)[:300])
            if not (a['f'] and a['g'] and a['g2'] and a['k']):
                return 'frozen value or clone differs from its original: %s for %s (%s)' % (a, T(v)[:300], ad)
            want = oracle.equal(seen_by(v, ad), seen_by(w, ad), True)
            return None if a['z'] == want else 'frozen %s equals %s is %s (%s)' % (T(v)[:300], T(w)[:300], a['z'], ad)
        return Raw({'op': 'fz', 'doc': T(v), 'other': T(w), 'ad': ad}, judge)
    for ad in ALL_AD:
        for v in pool:
            if not jsonable(v, ad):
                continue
            yield fz(v, v, ad)
            for w in r.sample(pool, 6):
                if jsonable(w, ad):
                    yield fz(v, w, ad)
    for b in (0, 2**31, 2**32, 2**53, 2**53 + 2, 2**62, 2**63 - 2, -2**31, -2**32, -2**53, -2**53 - 2, -2**62, -2**63 + 1, 2**63, 2**64 - 2):
        for x, y in itertools.product((b - 1, b, b + 1), repeat=2):
            if -2**63 <= min(x, y) and max(x, y) < 2**64:
                for ad in ALL_AD:
                    for v, w in ((x, y), ([x], [y]), ({'a': x}, {'a': y})):
                        if jsonable(v, ad) and jsonable(w, ad):
                            yield fz(v, w, ad)
    for _ in range(n):
        v = val(r, 3)
        w = val(r, 3) if r.random() < .5 else mutate(r, v)
        for ad in ALL_AD:
            if jsonable(v, ad) and jsonable(w, ad):
                yield fz(v, w, ad)
                if ad in STRICT_AD:
                    yield xeq(v, w, ad, r.choice(STRICT_AD), True)


def mutate(r, v):
    if isinstance(v, list) and v and r.random() < .8:
        i = r.randrange(len(v))
        return v[:i] + [mutate(r, v[i])] + v[i + 1:]
    if isinstance(v, dict) and v and r.random() < .8:
        k = r.choice(list(v))
        return {**{x: y for x, y in reversed(v.items())}, k: mutate(r, v[k])} if r.random() < .7 else {x: y for x, y in v.items() if x != k}
    return r.choice([v, val(r, 1)])


def xeq(v, w, ada, adb, strict):
    def judge(a):
        if 'eq' not in a:
            return 'driver: %s' % a
        try:
            want = oracle.equal(v, w, strict)
        except DontCare:
            return None
        return None if a['eq'] == want else '%s (%s) equals %s (%s) is %s' % (T(v)[:300], ada, T(w)[:300], adb, a['eq'])
    if not (jsonable(v, ada) and jsonable(w, adb)):
        return Raw({'op': 'u8', 's': ''}, lambda a: None)
    return Raw({'op': 'xeq', 'a': T(v), 'ada': ada, 'b': T(w), 'adb': adb, 'strict': strict}, judge)


# ------------------------------------------------------------------ P20
KW = ['type', 'allOf', 'anyOf', 'oneOf', 'not', 'contains', 'propertyNames', 'if', 'dependencies', 'description', 'title', 'pattern', 'divisibleBy', 'multipleOf', 'enum', 'const', 'extends', 'format', 'items', 'maximum', 'minimum',
      'maxItems', 'minItems', 'maxLength', 'minLength', 'maxProperties', 'minProperties', 'properties', 'patternProperties', 'additionalProperties', 'required', 'uniqueItems']
BAD = [None, True, False, 0, 1, -1, 2.0, 1.5, -0.5, 'x', 'integer', [], {}, [1], ['a'], ['a', 1], [{}], [{}, 1], [[]], {'a': 1}, {'a': {}}, {'a': []}, {'a': ['b']}, {'a': ['b', 1]}, {'a': 'b'}, {'a': {'type': 'nope'}}, {'type': 'integer'}, {'type': 'nope'},
       [{'type': 'nope'}], ['integer', 'nope'], ['integer', {'type': 'nope'}], 'any', ['any'], 10**19, 1e300, -2**63, 0.1]


def p20(seed, n):
    A = ('verdict', 'schema')
    docs = [None, True, False, 0, 1, 2, -1, 1.5, '', 'a', 'abc', [], [1], [1, 1], ['a', 'b', 'c'], {}, {'a': 1}, {'a': 'x', 'b': 2}, {'a': [], 'b': {}, 'c': 3}]
    r = random.Random(seed)
    for draft in (7, 4, 3):
        for k in KW:
            for v in BAD:
                yield V({k: v}, docs, draft, True, True, None, A)
                yield V({'properties': {'a': {k: v}}}, docs[:3] + docs[-3:], draft, True, True, None, A)
        for k in ('exclusiveMaximum', 'exclusiveMinimum'):
            m = 'maximum' if 'Max' in k else 'minimum'
            for v in [None, True, False, 0, 1.5, 'x', [], {}]:
                yield V({k: v}, docs, draft, True, True, None, A)
                for w in (0, 1, 1.5):
                    yield V({k: v, m: w}, docs, draft, True, True, None, A)
                    yield V({m: w, k: v}, docs, draft, True, True, None, A)
        for v in [None, True, False, 0, 'x', [], {}, {'type': 'nope'}, {'type': 'integer'}]:
            yield V({'items': [{}], 'additionalItems': v}, docs, draft, True, True, None, A)
            yield V({'items': {}, 'additionalItems': v}, docs, draft, True, True, None, A)
            yield V({'additionalItems': v}, docs, draft, True, True, None, A)
        for v in [True, False, {}, {'type': 'integer'}]:
            yield V({'if': {'type': 'integer'}, 'then': v}, docs, draft, True, True, None, A)
            yield V({'if': {'type': 'integer'}, 'else': v}, docs, draft, True, True, None, A)
        for root in [None, 0, 1.5, 'x', [], [1], True, False]:
            yield V(root, docs, draft, True, True, None, A)
        # limits
        for k, mk in [('maxItems', lambda i: [0] * i), ('minItems', lambda i: [0] * i), ('maxLength', lambda i: 'x' * i), ('minLength', lambda i: 'x' * i), ('maxProperties', lambda i: {'k%d' % j: 0 for j in range(i)}), ('minProperties', lambda i: {'k%d' % j: 0 for j in range(i)})]:
            for lim in [0, 1, 2, 3, 255, 256, 257, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 3.0]:
                yield V({k: lim}, [mk(i) for i in (0, 1, 2, 3, 4)] + [mk(256)], draft, True, True, None, A)
    # pairs and triples of well formed keywords: each one takes effect whatever stands beside it
    good = {'type': ['integer', ['string', 'null'], 'array', 'object'], 'enum': [[1, 'a'], [[]]], 'minimum': [1], 'maximum': [1], 'minItems': [1], 'maxItems': [1], 'minLength': [1], 'maxLength': [1], 'minProperties': [1], 'maxProperties': [1], 'pattern': ['a'], 'uniqueItems': [True], 'items': [{'type': 'integer'}, [{'type': 'integer'}]],
            'properties': [{'a': {'type': 'integer'}}], 'additionalProperties': [False, {'type': 'integer'}], 'patternProperties': [{'b': {'type': 'integer'}}], 'dependencies': [{'a': ['b']}, {'a': {'minProperties': 2}}], 'additionalItems': [False], 'format': ['date'], 'title': ['t'], 'description': ['d'], 'default': [1], 'unknown': [{}]}
    more = {7: {'const': [1], 'contains': [{'type': 'integer'}], 'not': [{'type': 'integer'}], 'allOf': [[{'type': 'integer'}]], 'anyOf': [[{'type': 'integer'}]], 'oneOf': [[{'type': 'integer'}, {'minimum': 1}]], 'if': [{'type': 'integer'}], 'then': [{'minimum': 1}], 'else': [{'type': 'string'}], 'required': [['a']], 'propertyNames': [{'maxLength': 1}], 'multipleOf': [2], 'exclusiveMinimum': [1], 'exclusiveMaximum': [1]},
            4: {'not': [{'type': 'integer'}], 'allOf': [[{'type': 'integer'}]], 'anyOf': [[{'type': 'integer'}]], 'oneOf': [[{'type': 'integer'}, {'minimum': 1}]], 'required': [['a']], 'multipleOf': [2]},
            3: {'extends': [{'type': 'integer'}, [{'type': 'object'}]], 'divisibleBy': [2]}}
    for draft in (7, 4, 3):
        kws = dict(good, **more[draft])
        names = list(kws)
        for a, b in itertools.permutations(names, 2):
            yield V({a: kws[a][0], b: kws[b][-1]}, docs, draft, True, True, None, A)
        for _ in range(n):
            ks = r.sample(names, r.randrange(2, 7))
            yield V({k: r.choice(kws[k]) for k in ks}, docs, draft, True, True, None, A)
    for _ in range(n):
        s = schema(r, r.choice((7, 4, 3)), 2)
        d = r.choice((7, 4, 3))
        if isinstance(s, dict):
            # a random schema with one value somewhere replaced
            s = json.loads(T(s))
            cur = s
            while True:
                k = r.choice(list(cur) if isinstance(cur, dict) else range(len(cur))) if len(cur) else None
                if k is None:
                    break
                if isinstance(cur[k], (dict, list)) and cur[k] and r.random() < .6:
                    cur = cur[k]
                    continue
                cur[k] = r.choice(BAD)
                break
            yield V(s, docs, d, True, True, None, A)
