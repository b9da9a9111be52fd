"""Canonical names: demangled C++ names without return type, template arguments and parameters."""
import re

OPS = ['()', '[]', '->*', '->', '<=>', '<<=', '>>=', '<<', '>>', '<=', '>=', '==', '!=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '&&', '||',
       '++', '--', '<', '>', '+', '-', '*', '/', '%', '^', '&', '|', '~', '!', '=', ',', ' new[]', ' new', ' delete[]', ' delete']
_cache = {}


def split_params(dem):
    """(prefix, params string) of a demangled function name; params None for non-functions"""
    s = dem
    s = re.sub(r'(\[abi:[^\]]*\])', '', s)
    s = re.sub(r' \[clone [^\]]*\]$', '', s)
    s = re.sub(r' (const|volatile|&|&&|noexcept)$', '', s)
    s = re.sub(r' const$', '', s)
    if not s.endswith(')'):
        return s, None
    d = 0
    i = len(s) - 1
    while i >= 0:
        c = s[i]
        if c == ')':
            d += 1
        elif c == '(':
            d -= 1
            if d == 0:
                break
        i -= 1
    if s[:i].endswith('operator'):
        return s, None
    return s[:i], s[i + 1:-1]


def strip_templates(s):
    out = []
    i = 0
    d = 0
    n = len(s)
    while i < n:
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            for o in OPS:
                if s.startswith(o, i + 8):
                    if d == 0:
                        out.append('operator' + o.replace(' ', '_'))
                    i += 8 + len(o)
                    break
            else:
                # conversion operator: keep up to the end of the type
                if d == 0:
                    out.append('operator')
                i += 8
                if d == 0 and i < n and s[i] == ' ':
                    out.append('_')
                    i += 1
            continue
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and not (i and s[i - 1] == '-'):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def canon(dem):
    r = _cache.get(dem)
    if r is not None:
        return r
    p, _ = split_params(dem)
    s = strip_templates(p)
    # drop return type: last space outside parentheses/braces
    d = 0
    cut = 0
    for i, c in enumerate(s):
        if c in '({':
            d += 1
        elif c in ')}':
            d -= 1
        elif c == ' ' and d == 0 and i < len(s) - 1:
            cut = i + 1
    r = s[cut:].strip().replace('std::__cxx11::', 'std::')
    _cache[dem] = r
    return r


def targs(dem, name):
    """template arguments of the first occurrence of name< in dem, split at top level"""
    i = dem.find(name + '<')
    if i < 0:
        return []
    i += len(name) + 1
    out = []
    cur = []
    d = 0
    while i < len(dem):
        c = dem[i]
        if c in '<({':
            d += 1
        elif c in '>)}':
            if c == '>' and d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append(''.join(cur).strip())
    return out


def params(dem):
    p = split_params(dem)[1]
    if not p:
        return []
    out = []
    cur = []
    d = 0
    for c in p:
        if c in '<({':
            d += 1
        elif c in '>)}':
            d -= 1
        if c == ',' and d == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
    out.append(''.join(cur).strip())
    return out
