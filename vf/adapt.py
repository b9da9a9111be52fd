"""Spreads validation cases over the other strictly typed adapters."""
from . import bounded


def exact(v, ad):
    """does the parser of this JSON library keep the numbers as written? (limits of the libraries)"""
    if isinstance(v, dict):
        return all(exact(x, ad) for x in v.values())
    if isinstance(v, list):
        return all(exact(x, ad) for x in v)
    if isinstance(v, float):
        if ad == 'jsoncpp':
            return not v.is_integer()
        if ad == 'boostjson':
            return len(repr(v)) < 16 and 'e' not in repr(v)
    if isinstance(v, int) and not isinstance(v, bool) and ad == 'poco':
        return abs(v) <= 2**53
    return True

def spread(gen, every=3):
    i = 0
    for c in gen:
        i += 1
        if isinstance(c, bounded.V) and c.ad == 'nlohmann' and not c.texts and i % every == 0:
            ad = bounded.STRICT_AD[(i // every) % len(bounded.STRICT_AD)]
            if all(bounded.jsonable(x, ad) and exact(x, ad) for x in [c.schema, *c.docs, *(c.remotes or {}).values()]):
                c.ad = ad
        yield c
