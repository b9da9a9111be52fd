"""Independent evaluator of JSON Schema drafts 3, 4 and 7 as valijson documents them. It is used only by the bounded
checks (replaying and searching for failing inputs on the compiled code); nothing here takes part in a proof.

A verdict is True, False or None (None: the property does not say, e.g. divisibility within rounding error)."""
import json, math, re
from fractions import Fraction


class SchemaError(Exception):
    pass


class DontCare(Exception):
    """outside what the properties say"""


# ------------------------------------------------------------------ values
def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def integral(v):
    return is_num(v) and (is_int(v) or (math.isfinite(v) and v == int(v)))


def fits(v):
    return -2**63 <= v < 2**63


FLOAT = re.compile(rb'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z')
INT = re.compile(rb'[+-]?[0-9]+\Z')


def b8(s):
    return s.encode('latin-1') if all(ord(c) < 256 for c in s) and False else s.encode('utf-8', 'surrogatepass')


def str_float(s):
    b = b8(s)
    if not FLOAT.match(b):
        return None
    f = float(b)
    if b[:1] == b'+' or math.isinf(f) or (f == 0 and re.search(rb'[1-9]', re.split(rb'[eE]', b)[0])):
        raise DontCare          # an explicit plus sign, overflow, underflow
    return f


def str_int(s):
    b = b8(s)
    if not INT.match(b):
        return None
    i = int(b)
    return i if fits(i) else None


# the documented casts of weak-types mode; None (or NOPE) when there is none
NOPE = object()


def maybe_double(v):
    return is_num(v) or (isinstance(v, str) and str_float(v) is not None)


def maybe_integer(v):
    return is_int(v) or (isinstance(v, float) and integral(v) and fits(int(v))) or (isinstance(v, str) and str_int(v) is not None)


def maybe_bool(v):
    return isinstance(v, bool) or v in ('true', 'false') if isinstance(v, (bool, str)) else False


def maybe_null(v):
    return v is None or (isinstance(v, str) and v == '')


def maybe_array(v):
    return isinstance(v, list) or v == {}


def maybe_object(v):
    return isinstance(v, dict) or (isinstance(v, list) and not v)


def maybe_string(v):
    return isinstance(v, (str, bool, int, float)) or v == [] or v == {}


def as_bool(v):
    return v if isinstance(v, bool) else v == 'true'


def as_double(v):
    return float(v) if is_num(v) else str_float(v)


def as_integer(v):
    return int(v) if is_num(v) else str_int(v)


def as_string(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if is_int(v):
        return str(v)
    if isinstance(v, float):
        return '%f' % v
    return ''


def equal(a, b, strict):
    if maybe_null(a) if not strict else a is None:
        return maybe_null(b) if not strict else b is None
    if maybe_bool(a) if not strict else isinstance(a, bool):
        return (maybe_bool(b) if not strict else isinstance(b, bool)) and as_bool(a) == as_bool(b)
    if strict and is_num(a):
        if not is_num(b):
            return False
        exact = is_int(a) and is_int(b) and fits(a) and fits(b)      # numbers that are not both int64 compare as doubles
        return a == b if exact else float(a) == float(b)
    if not strict and maybe_double(a):
        if maybe_integer(a) and maybe_integer(b):
            return as_integer(a) == as_integer(b)
        return maybe_double(b) and as_double(a) == as_double(b)
    if not strict and maybe_integer(a):
        return maybe_integer(b) and as_integer(a) == as_integer(b)
    if isinstance(a, str) or (not strict and maybe_string(a)):
        if not (isinstance(b, str) or (not strict and maybe_string(b))):
            return False
        return as_string(a) == as_string(b)
    if isinstance(a, list):
        if isinstance(b, list) and len(a) == len(b):
            return all(equal(x, y, strict) for x, y in zip(a, b))
        return not strict and maybe_array(b) and not a
    if isinstance(a, dict):
        if isinstance(b, dict) and len(a) == len(b):
            return all(k in b and equal(x, b[k], strict) for k, x in a.items())
        return not strict and maybe_object(b) and not a
    return False


# ------------------------------------------------------------------ formats
def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def ok_date(s):
    m = re.match(r'([0-9]{4})-([0-9]{2})-([0-9]{2})\Z', s)
    if not m:
        return False
    y, mo, d = map(int, m.groups())
    if not 1 <= mo <= 12:
        return False
    return 1 <= d <= (29 if mo == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1])


def ok_time(s, strict):
    m = re.match(r'([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]+)?([Zz]|[+-][0-9]{2}:[0-9]{2})?\Z', s)
    if not m:
        return False
    h, mi, se = int(m[1]), int(m[2]), int(m[3])
    off = m[5]
    if off is None and strict:
        return False
    o = 0
    if off and off not in 'Zz':
        oh, om = int(off[1:3]), int(off[4:6])
        if oh > 23 or om > 59:
            return False
        o = (oh * 60 + om) * (-1 if off[0] == '-' else 1)
    if h > 23 or mi > 59 or se > 60:
        return False
    if se == 60 and (h * 60 + mi - o) % 1440 != 1439:
        return False
    return True


def ok_format(fmt, s, strict_dt):
    if fmt == 'date':
        return ok_date(s)
    if fmt == 'time':
        return ok_time(s, strict_dt)
    if fmt == 'date-time':
        m = re.match(r'(.{10})[Tt](.*)\Z', s, re.S)
        return bool(m) and ok_date(m[1]) and ok_time(m[2], strict_dt)
    if fmt == 'ipv4':
        ps = s.split('.')
        if len(ps) != 4 or not all(re.match(r'[0-9]{1,3}\Z', p) and int(p) <= 255 for p in ps):
            return False
        return None if any(len(p) > 1 and p[0] == '0' for p in ps) else True
    return True


# ------------------------------------------------------------------ JSON pointers, references
def unescape(tok):
    return tok.replace('~1', '/').replace('~0', '~')


def esc(tok):
    return tok.replace('~', '~0').replace('/', '~1')


def pct(tok):
    out, i = bytearray(), 0
    b = b8(tok)
    while i < len(b):
        if b[i] == 37:
            h = b[i + 1:i + 3]
            if not re.match(rb'[0-9A-Fa-f]{2}\Z', h):
                raise SchemaError('percent')
            out.append(int(h, 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out).decode('utf-8', 'surrogateescape')


def resolve_pointer(doc, ptr, strict=True, uri=True):
    """-> value; raises KeyError. strict: RFC 6901, empty tokens are members called ''"""
    if ptr == '':
        return doc
    if ptr[0] != '/':
        raise KeyError(ptr)
    cur = doc
    for tok in ptr[1:].split('/'):
        if tok == '' and not strict:
            continue
        try:
            t = pct(tok) if uri else tok
        except SchemaError:
            raise KeyError(ptr)
        if re.search(r'~(?![01])', t):
            raise DontCare
        t = unescape(t)
        if isinstance(cur, list):
            if not re.match(r'(0|[1-9][0-9]*)\Z', t) or int(t) >= len(cur):
                raise KeyError(ptr)
            cur = cur[int(t)]
        elif isinstance(cur, dict):
            if t not in cur:
                raise KeyError(ptr)
            cur = cur[t]
        else:
            raise KeyError(ptr)
    return cur


def merge_uri(base, rel):
    """URI resolution (RFC 3986 with the simplifications the library documents)"""
    if re.match(r'[A-Za-z][A-Za-z0-9+.-]*://', rel) or re.match(r'urn:[A-Za-z0-9][A-Za-z0-9-]{1,30}:', rel):
        return rel
    if rel == '':
        return base
    m = re.match(r'([A-Za-z][A-Za-z0-9+.-]*://[^/?#]*)?([^?#]*)(.*)\Z', base, re.S)
    auth, path = m[1] or '', m[2]
    if rel[0] == '#':
        return base.split('#')[0].split('?')[0] + rel
    if rel[0] == '?':
        return auth + path + rel
    i = min([rel.find(c) for c in '?#' if c in rel] or [len(rel)])
    if rel[:i].split('/')[-1] in ('.', '..') or rel.lower().startswith('urn:'):
        raise DontCare
    rp, rest = rel[:i], rel[i:]
    if rp.startswith('/'):
        p = rp
    else:
        p = path[:path.rfind('/') + 1] + rp if '/' in path else ('/' + rp if auth else rp)
    return auth + dots(p) + rest


def dots(p):
    """dot segments removed and repeated slashes collapsed; a ".." with nothing left to remove is dropped
    from an absolute path and kept in a relative one"""
    out = []
    for s in p.split('/'):
        if s == '..':
            if out and out[-1] != '..':
                out.pop()
            elif not p.startswith('/'):
                out.append(s)
        elif s not in ('.', ''):
            out.append(s)
    q = ('/' if p.startswith('/') else '') + '/'.join(out)
    return q + '/' if p.endswith('/') and not q.endswith('/') else q


# ------------------------------------------------------------------ schemas
TYPES = {'array', 'boolean', 'integer', 'null', 'number', 'object', 'string', 'any'}


class Node:
    """a schema node together with the document (root) and base URI it was found in"""
    def __init__(self, v, doc):
        self.v, self.doc = v, doc


class Oracle:
    def __init__(self, schema, draft=7, strong=True, sdt=True, remotes=None):
        self.draft, self.strong, self.sdt = draft, strong, sdt
        self.root = schema
        self.remotes = remotes or {}
        self.locs = None

    # ---------------- references
    def ids(self):
        if not hasattr(self, '_ids'):
            self._ids = {}

            def walk(v, base):
                if isinstance(v, dict):
                    i = v.get('$id' if self.draft == 7 else 'id')
                    if isinstance(i, str) and '$ref' not in v:
                        base = merge_uri(base, i) if base is not None else i
                        self._ids.setdefault(base, (v, base))
                    for k, x in v.items():
                        walk(x, base)
                elif isinstance(v, list):
                    for x in v:
                        walk(x, base)
            walk(self.root, None)
        return self._ids

    def deref(self, s, doc):
        seen = 0
        while isinstance(s, dict) and isinstance(s.get('$ref'), str):
            seen += 1
            if seen > 50:
                raise SchemaError('cycle')
            uri, _, frag = s['$ref'].partition('#')
            if uri:
                d = self.remotes.get(uri)
                if d is None:
                    ids = self.ids()
                    if uri in ids:
                        d = ids[uri][0]
                    else:
                        raise SchemaError('fetch')
                doc = d
            if frag and not frag.startswith('/'):
                ids = self.ids()
                hit = [v for k, (v, b) in ids.items() if k == '#' + frag or k.endswith('#' + frag)]
                if not hit:
                    raise SchemaError('anchor')
                s = hit[0]
                continue
            try:
                s = resolve_pointer(doc, frag)
            except KeyError:
                raise SchemaError('pointer')
        return s, doc

    # ---------------- compile-time checks: SchemaError when parsing must throw
    def check(self):
        self.checked = set()
        self.comp(self.root, self.root, (None, None))

    def schema_like(self, v, what):
        if isinstance(v, dict) or (self.draft == 7 and isinstance(v, bool)):
            return
        raise SchemaError(what)

    def comp(self, s, doc, owner=(None, None)):
        s, doc = self.deref(s, doc)
        key = id(s), owner[0] is None
        if key in self.checked:
            return
        self.checked.add(key)
        self.schema_like(s, 'schema')
        if isinstance(s, bool):
            return
        d = self.draft
        for k, v in s.items():
            if k == 'type':
                if v == [] or isinstance(v, list) and [] in v:
                    raise DontCare
                for t in v if isinstance(v, list) else [v]:
                    if isinstance(t, str):
                        if t not in TYPES or (t == 'any' and d == 4):
                            raise SchemaError(k)
                    elif isinstance(t, dict) and d == 3:
                        self.comp(t, doc)
                    else:
                        raise SchemaError(k)
            elif k in ('allOf', 'anyOf', 'oneOf'):
                if v == {}:
                    raise DontCare      # the documented cast between empty arrays and objects
                if not isinstance(v, list):
                    raise SchemaError(k)
                for t in v:
                    self.schema_like(t, k)
                    self.comp(t, doc)
            elif k in ('not', 'contains'):
                if v == []:
                    raise DontCare
                self.schema_like(v, k)
                self.comp(v, doc)
            elif k == 'propertyNames':
                if d != 7:
                    raise SchemaError(k)
                self.comp(v, doc)
            elif k == 'if':
                if d != 7:
                    raise SchemaError(k)
                for q in ('if', 'then', 'else'):
                    if q in s:
                        self.comp(s[q], doc)
            elif k == 'dependencies':
                if v == []:
                    raise DontCare
                if not isinstance(v, dict):
                    raise SchemaError(k)
                for n, t in v.items():
                    if isinstance(t, list):
                        if not all(isinstance(x, str) for x in t):
                            raise SchemaError(k)
                    elif d == 3 and isinstance(t, str):
                        pass
                    else:
                        self.schema_like(t, k)
                        self.comp(t, doc)
            elif k in ('description', 'title', 'pattern'):
                if k != 'pattern' and (isinstance(v, (bool, int, float)) or v in ([], {})):
                    raise DontCare      # has a documented cast to a string
                if not isinstance(v, str):
                    raise SchemaError(k)
            elif k == 'divisibleBy' or k == 'multipleOf':
                if (k == 'divisibleBy') != (d == 3):
                    raise SchemaError(k)
                if not is_num(v) or not v > 0:
                    raise SchemaError(k)
            elif k == 'enum':
                if not isinstance(v, list):
                    raise SchemaError(k)
            elif k == 'extends' and d == 3:
                for t in v if isinstance(v, list) else [v]:
                    self.schema_like(t, k)
                    self.comp(t, doc)
            elif k == 'format':
                if not isinstance(v, str) or not v:
                    raise SchemaError(k)
            elif k == 'items':
                if isinstance(v, list):
                    for t in v:
                        self.comp(t, doc)
                    a = s.get('additionalItems', True)
                    if not isinstance(a, (bool, dict)):
                        raise SchemaError('additionalItems')
                    if isinstance(a, dict):
                        self.comp(a, doc)
                else:
                    self.schema_like(v, k)
                    self.comp(v, doc)
            elif k in ('maximum', 'minimum'):
                if not is_num(v):
                    raise SchemaError(k)
            elif k in ('exclusiveMaximum', 'exclusiveMinimum'):
                if d == 7:
                    if not is_num(v):
                        raise SchemaError(k)
                elif not isinstance(v, bool) or ('maximum' if k == 'exclusiveMaximum' else 'minimum') not in s:
                    raise SchemaError(k)
            elif k in ('maxItems', 'minItems', 'maxLength', 'minLength', 'maxProperties', 'minProperties'):
                if not integral(v) or v < 0 or not fits(int(v)):
                    raise SchemaError(k)
            elif k in ('properties', 'patternProperties'):
                if not isinstance(v, dict):
                    raise SchemaError(k)
                for n, t in v.items():
                    self.comp(t, doc, (s, n) if d == 3 else (None, None))
            elif k == 'additionalProperties':
                if not isinstance(v, (bool, dict)):
                    raise SchemaError(k)
                if isinstance(v, dict):
                    self.comp(v, doc)
            elif k == 'required':
                if d == 3:
                    if owner[0] is None or not isinstance(v, bool):
                        raise SchemaError(k)
                elif not isinstance(v, list) or not all(isinstance(x, str) for x in v):
                    raise SchemaError(k)
            elif k == 'uniqueItems':
                if not isinstance(v, bool):
                    raise SchemaError(k)

    # ---------------- evaluation
    def accepts(self, v, track=False):
        self.may, self.must = set(), set()
        self.track = track
        return self.ev(self.root, self.root, v, '', True)

    def fail(self, ptr, conj):
        self.may.add(ptr)
        if conj:
            self.must.add(ptr)

    def ev(self, s, doc, v, ptr, conj):
        """conj: a failure here makes the whole document invalid"""
        s, doc = self.deref(s, doc)
        if s is True:
            return True
        if s is False:
            self.fail(ptr, conj)
            return False
        r = True
        for k in s:
            f = getattr(self, 'kw_' + k, None)
            if f is None:
                continue
            x = f(s, doc, v, ptr, conj)
            if x is False:
                if k not in self.CONT:
                    self.fail(ptr, conj)
                else:
                    self.may.add(ptr)
                r = False
            elif x is None:
                self.may.add(ptr)
                r = None if r else r
        return r

    # keywords whose failure is reported at the places of the failing sub-values
    CONT = {'items', 'properties', 'patternProperties', 'additionalProperties', 'dependencies', 'allOf', 'extends', 'propertyNames', 'if'}

    @staticmethod
    def conj3(xs):
        xs = list(xs)
        return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True

    @staticmethod
    def disj3(xs):
        xs = list(xs)
        return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False

    def all3(self, ts, doc, v, p, c):
        # collecting errors may stop at the first sub-schema that fails
        r = []
        for t in ts:
            r.append(self.ev(t, doc, v, p, c and False not in r))
        return self.conj3(r)

    def kw_allOf(self, s, doc, v, p, c):
        return self.all3(s['allOf'], doc, v, p, c)

    def kw_extends(self, s, doc, v, p, c):
        if self.draft != 3:
            return True
        e = s['extends']
        return self.all3(e if isinstance(e, list) else [e], doc, v, p, c)

    def kw_anyOf(self, s, doc, v, p, c):
        return self.disj3([self.ev(t, doc, v, p, False) for t in s['anyOf']])

    def kw_oneOf(self, s, doc, v, p, c):
        xs = [self.ev(t, doc, v, p, False) for t in s['oneOf']]
        if None in xs:
            return None
        return sum(xs) == 1

    def kw_not(self, s, doc, v, p, c):
        x = self.ev(s['not'], doc, v, p, False)
        return None if x is None else not x

    def kw_if(self, s, doc, v, p, c):
        if self.draft != 7:
            return True
        x = self.ev(s['if'], doc, v, p, False)
        if x is None:
            return None
        b = 'then' if x else 'else'
        return self.ev(s[b], doc, v, p, c) if b in s else True

    def arr(self, v):
        if isinstance(v, list):
            return v
        if not self.strong and v == {}:
            return []
        return None

    def obj(self, v):
        if isinstance(v, dict):
            return v
        if not self.strong and v == []:
            return {}
        return None

    def kw_items(self, s, doc, v, p, c):
        a = self.arr(v)
        if a is None:
            return True
        it = s['items']
        if not isinstance(it, list):
            return self.conj3([self.ev(it, doc, x, '%s/%d' % (p, i), c) for i, x in enumerate(a)])
        add = s.get('additionalItems', True)
        r = []
        for i, x in enumerate(a):
            if i < len(it):
                r.append(self.ev(it[i], doc, x, '%s/%d' % (p, i), c))
            elif add is False:
                self.may.add('%s/%d' % (p, i))
                r.append(False)
            elif add is not True:
                r.append(self.ev(add, doc, x, '%s/%d' % (p, i), c))
        if False in r and isinstance(add, dict):
            # once an item has failed, further errors may come from any schema of the list
            for i, x in enumerate(a[:len(it)]):
                self.ev(add, doc, x, '%s/%d' % (p, i), False)
        return self.conj3(r)

    def kw_contains(self, s, doc, v, p, c):
        a = self.arr(v)
        if a is None:
            return True
        return self.disj3([self.ev(s['contains'], doc, x, '%s/%d' % (p, i), False) for i, x in enumerate(a)])

    def kw_properties(self, s, doc, v, p, c):
        return self.props(s, doc, v, p, c)

    def kw_patternProperties(self, s, doc, v, p, c):
        return True if 'properties' in s else self.props(s, doc, v, p, c)

    def kw_additionalProperties(self, s, doc, v, p, c):
        return True if 'properties' in s or 'patternProperties' in s else self.props(s, doc, v, p, c)

    def props(self, s, doc, v, p, c):
        r = self.props1(s, doc, v, p, False)
        if c and r.count(False) == 1:       # several failures: collecting errors may stop at the first
            self.props1(s, doc, v, p, True)
        a = s.get('additionalProperties')
        if False in r and isinstance(a, dict):
            # once a member has failed, further errors may come from any schema of the keyword
            for n, x in self.obj(v).items():
                self.ev(a, doc, x, p + '/' + esc(n), False)
        return self.conj3(r)

    def props1(self, s, doc, v, p, c):
        o = self.obj(v)
        if o is None:
            return []
        r = []
        if self.draft == 3:
            for n, t in s.get('properties', {}).items():
                t2, d2 = self.deref(t, doc)
                if isinstance(t2, dict) and t2.get('required') is True and n not in o:
                    self.fail(p, c)
                    r.append(False)
        for n, x in o.items():
            q = p + '/' + esc(n)
            hit = False
            if n in s.get('properties', {}):
                hit = True
                r.append(self.ev(s['properties'][n], doc, x, q, c))
            for pat, t in s.get('patternProperties', {}).items():
                if self.found(pat, n):
                    hit = True
                    r.append(self.ev(t, doc, x, q, c))
            if not hit:
                a = s.get('additionalProperties', True)
                if a is False:
                    self.may.add(q)
                    r.append(False)
                elif a is not True:
                    r.append(self.ev(a, doc, x, q, c))
        return r

    def kw_propertyNames(self, s, doc, v, p, c):
        o = self.obj(v)
        if o is None or self.draft != 7:
            return True
        r = []
        for n in o:
            old = self.may, self.must
            r.append(self.ev(s['propertyNames'], doc, n, p, False))
        return self.conj3(r)

    def kw_required(self, s, doc, v, p, c):
        if self.draft == 3:
            return True
        o = self.obj(v)
        return True if o is None else all(n in o for n in s['required'])

    def kw_dependencies(self, s, doc, v, p, c):
        r = self.deps(s, doc, v, p, False)
        if c and r.count(False) == 1:
            self.deps(s, doc, v, p, True)
        return self.conj3(r)

    def deps(self, s, doc, v, p, c):
        o = self.obj(v)
        if o is None:
            return []
        r = []
        for n, t in s['dependencies'].items():
            if n not in o:
                continue
            if isinstance(t, str):
                t = [t]
            if isinstance(t, list):
                ok = all(x in o for x in t)
                if not ok:
                    self.fail(p, c)
                r.append(ok)
            else:
                r.append(self.ev(t, doc, v, p, c))
        return r

    def size(self, s, k, n, upper):
        if n is None:
            return True
        return n <= s[k] if upper else n >= s[k]

    def kw_maxItems(self, s, doc, v, p, c):
        a = self.arr(v)
        return self.size(s, 'maxItems', None if a is None else len(a), True)

    def kw_minItems(self, s, doc, v, p, c):
        a = self.arr(v)
        return self.size(s, 'minItems', None if a is None else len(a), False)

    def kw_maxProperties(self, s, doc, v, p, c):
        a = self.obj(v)
        return self.size(s, 'maxProperties', None if a is None else len(a), True)

    def kw_minProperties(self, s, doc, v, p, c):
        a = self.obj(v)
        return self.size(s, 'minProperties', None if a is None else len(a), False)

    def text(self, v):
        if isinstance(v, str):
            return v
        if not self.strong and maybe_string(v):
            return as_string(v)
        return None

    def kw_maxLength(self, s, doc, v, p, c):
        t = self.text(v)
        return self.size(s, 'maxLength', None if t is None else len(t), True)

    def kw_minLength(self, s, doc, v, p, c):
        t = self.text(v)
        return self.size(s, 'minLength', None if t is None else len(t), False)

    def found(self, pat, t):
        return re.search(b8(re.sub(r'\$', r'\\Z', pat)), b8(t)) is not None

    def kw_pattern(self, s, doc, v, p, c):
        t = self.text(v)
        return True if t is None else self.found(s['pattern'], t)

    def num(self, v):
        if is_num(v):
            return v
        if not self.strong and isinstance(v, str):
            return str_float(v)
        return None

    def kw_maximum(self, s, doc, v, p, c):
        n = self.num(v)
        if n is None:
            return True
        n, m = float(n), float(s['maximum'])
        return n < m if self.draft != 7 and s.get('exclusiveMaximum') is True else n <= m

    def kw_minimum(self, s, doc, v, p, c):
        n = self.num(v)
        if n is None:
            return True
        n, m = float(n), float(s['minimum'])
        return n > m if self.draft != 7 and s.get('exclusiveMinimum') is True else n >= m

    def kw_exclusiveMaximum(self, s, doc, v, p, c):
        n = self.num(v)
        return True if n is None or self.draft != 7 else float(n) < float(s['exclusiveMaximum'])

    def kw_exclusiveMinimum(self, s, doc, v, p, c):
        n = self.num(v)
        return True if n is None or self.draft != 7 else float(n) > float(s['exclusiveMinimum'])

    def kw_multipleOf(self, s, doc, v, p, c):
        return self.divisible(v, s['multipleOf']) if self.draft != 3 else True

    def kw_divisibleBy(self, s, doc, v, p, c):
        return self.divisible(v, s['divisibleBy']) if self.draft == 3 else True

    def divisible(self, v, m):
        if not self.strong and isinstance(v, str) and str_int(v) is not None:
            v = str_int(v)
        n = self.num(v)
        if n is None:
            return True
        if integral(m) and fits(int(m)):
            if integral(n) and fits(int(n)):
                return int(n) % int(m) == 0
            if not integral(n):
                return False
            return None
        q = Fraction(float(n)) / Fraction(float(m))
        k = round(q)
        if abs(q) < 2**40:
            if float(k * Fraction(repr(float(m)))) == float(n) or float(n) == k * float(m):
                return True
            if abs(q - k) > Fraction(1, 1000) and abs(q) < 10**6:
                return False
        return None

    def kw_type(self, s, doc, v, p, c):
        ts = s['type'] if isinstance(s['type'], list) else [s['type']]
        r = []
        w = not self.strong
        for t in ts:
            if isinstance(t, dict):
                r.append(self.ev(t, doc, v, p, False))
            else:
                r.append({'any': lambda: True, 'array': lambda: isinstance(v, list), 'object': lambda: isinstance(v, dict),
                          'string': lambda: isinstance(v, str), 'boolean': lambda: isinstance(v, bool) or (w and maybe_bool(v)),
                          'null': lambda: v is None or (w and maybe_null(v)),
                          'number': lambda: is_num(v) or (w and maybe_double(v)),
                          'integer': lambda: integral(v) or (w and maybe_integer(v))}[t]())
        return self.disj3(r)

    def kw_const(self, s, doc, v, p, c):
        return equal(s['const'], v, self.strong)

    def kw_enum(self, s, doc, v, p, c):
        return any(equal(e, v, self.strong) for e in s['enum'])

    def kw_uniqueItems(self, s, doc, v, p, c):
        a = self.arr(v)
        if a is None or not s['uniqueItems']:
            return True
        return not any(equal(a[i], a[j], True) for i in range(len(a)) for j in range(i))

    def kw_format(self, s, doc, v, p, c):
        return ok_format(s['format'], v, self.sdt) if isinstance(v, str) else True
