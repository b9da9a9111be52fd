"""All proof tasks by property. The specifications are imported on demand, so that listing them needs no solver."""
import json, os

# spec name -> property (visit functions list theirs in visits.SPECS)
VISITS = {'P01': ['AllOf', 'AnyOf', 'OneOf', 'Not', 'Conditional'], 'P02': ['Contains', 'SingularItems', 'LinearItems'], 'P03': ['PropertyNames', 'Properties'],
          'P04': ['Required', 'Dependencies'], 'P05': ['MaxItems', 'MinItems', 'MaxProperties', 'MinProperties', 'MaxLength', 'MinLength'],
          'P06': ['Maximum', 'Minimum'], 'P07': ['MultipleOfInt', 'MultipleOfDouble'], 'P08': ['Type'], 'P09': ['Const', 'Enum', 'UniqueItems'], 'P10': ['Format', 'validate_date_range', 'validate_leap_second'], 'P13': ['Pattern', 'Properties']}
NOTES = {}
PROVED = {}
REST = {}


GETTERS = ['getBool', 'getInteger', 'getDouble', 'getNumber', 'getString', 'getArraySize', 'getObjectSize']
CASTS = ['asBool', 'asInteger', 'asDouble', 'asString']
PREDS = [p + t for p in ('is', 'maybe') for t in ('Null', 'Bool', 'Integer', 'Double', 'String', 'Array', 'Object')] + ['isNumber', 'hasStrictTypes']
ADAPTER = ['abs.' + n for n in PREDS + CASTS + GETTERS + [n + 'V' for n in CASTS + GETTERS] + ['asArray', 'asObject', 'getArray', 'getObject', 'applyToArray', 'applyToObject']] + \
    ['str.' + n for n in PREDS + CASTS + GETTERS + [n + 'V' for n in CASTS + GETTERS] if n not in ('maybeArray', 'maybeObject')]


KINDS = ['AllOf', 'AnyOf', 'Conditional', 'Const', 'Contains', 'Dependencies', 'Enum', 'Format', 'LinearItems', 'Maximum', 'MaxItems', 'MaxLength',
         'MaxProperties', 'Minimum', 'MinItems', 'MinLength', 'MinProperties', 'MultipleOfDouble', 'MultipleOfInt', 'Not', 'OneOf', 'Pattern',
         'Properties', 'PropertyNames', 'Required', 'SingularItems', 'Type', 'UniqueItems']
RESULTS = ['push', 'pushError', 'pop', 'num']
TEXTS = {'P14': ['decode', 'token', 'resolve', 'resolveUri', 'resolveStrict'], 'P15': ['refUri', 'refPointer', 'refLemma', 'relative']}
PARSER = ['makeMaxItems', 'makeMaxLength', 'makeMaxProperties', 'makeMinItems', 'makeMinLength', 'makeMinProperties', 'makeMaximum', 'makeMinimum',
          'makeMaximumExclusive', 'makeMinimumExclusive', 'makeMultipleOfInt', 'makeMultipleOfDouble', 'makeFormat', 'makePattern', 'makeUniqueItems',
          'makeAllOf', 'makeAnyOf', 'makeOneOf', 'makeExtends', 'makeNot', 'makeContains', 'makeSingularItems', 'makePropertyNames', 'makeConst', 'makeEnum', 'makeRequired', 'makeRequiredForSelf', 'makeConditional',
          'makeLinearItems', 'makeProperties0', 'makeProperties1', 'makeProperties2', 'makeProperties3', 'makeType']
# minutes each: part of the thorough checks only
POPULATE = ['populateSchema3', 'populateSchema4', 'populateSchema7']
# functions of the parser that compile sub-schemas, and the functions each keyword property depends on
PLACES = ['make' + k for k in ('AllOf', 'AnyOf', 'OneOf', 'Extends', 'Not', 'Contains', 'SingularItems', 'PropertyNames', 'Conditional', 'LinearItems', 'Properties0',
                               'Properties1', 'Properties2', 'Properties3', 'Type', 'Dependencies')]
PARSED = {'P01': ['AllOf', 'AnyOf', 'OneOf', 'Extends', 'Not', 'Conditional'], 'P02': ['Contains', 'SingularItems', 'LinearItems'],
          'P03': ['PropertyNames', 'Properties0', 'Properties1', 'Properties2', 'Properties3'], 'P04': ['Required', 'RequiredForSelf', 'Dependencies'],
          'P05': ['MaxItems', 'MaxLength', 'MaxProperties', 'MinItems', 'MinLength', 'MinProperties'],
          'P06': ['Maximum', 'Minimum', 'MaximumExclusive', 'MinimumExclusive'], 'P07': ['MultipleOfInt', 'MultipleOfDouble'], 'P08': ['Type'],
          'P09': ['Const', 'Enum', 'UniqueItems'], 'P10': ['Format'], 'P13': ['Pattern']}
STRINGS = {'P05': ['u8_strlen', 'u8_wellformed'], 'P19': ['parseDouble']}


def module(spec):
    return {'visit': 'visitor', 'adapter': 'adapter', 'schema': 'visitor', 'strings': 'strings', 'results': 'results', 'text': 'text', 'parser': 'parser'}[spec.partition('.')[0]]


FORMATS = ['date', 'time', 'dateTime', 'ipv4', 'other']


def variants(kind):
    more = ('-strict', '-weak') if kind == 'Properties' else tuple('-' + f for f in FORMATS) if kind == 'Format' else ('',)
    return [v + m for v in ('errors', 'plain') for m in more]


def tasks(prop, thorough=False):
    out = [('visit.' + k, v) for k in VISITS.get(prop, []) for v in variants(k)]
    if prop == 'P01':
        out += [('schema.' + n, v) for n in ('validateSchema', 'validateName') for v in ('errors', 'plain')]
        out += [('schema.validate', v) for v in ('both', 'types', 'default')]
        out += [('schema.accept' + k, '-') for k in KINDS]
    if prop == 'P11':
        out = [('visit.' + k, v) for ks in VISITS.values() for k in ks for v in variants(k) if v.startswith('errors')] + [('schema.' + n, v) for n in ('validateSchema', 'validateName') for v in ('errors', 'plain')]
    if prop == 'P12':
        out = [('visit.' + k, v) for ks in VISITS.values() for k in ks for v in variants(k) if v.startswith('errors')] + [('results.' + n, '-') for n in RESULTS]
    out = list(dict.fromkeys(out))
    if prop == 'P18':
        out += [('adapter.' + n, '-') for n in ADAPTER]
    if prop == 'P19':
        out += [('adapter.%s.%s' % (a, n), '-') for a in ('abs', 'str') for n in ('maybeBool', 'maybeInteger', 'maybeDouble', 'asBool', 'asInteger', 'asDouble', 'asBoolV', 'asIntegerV', 'asDoubleV')]
    if prop == 'P09':
        out += [('adapter.' + n, '-') for n in ('abs.equalToStrict', 'abs.equalToWeak', 'str.equalTo')]
    if prop == 'P20':
        out += [('parser.' + n, '-') for n in PARSER]
    if prop == 'P16':
        out += [('parser.' + n, '-') for n in PARSER if n in PLACES]
    if thorough and prop in ('P16', 'P20'):
        out += [('parser.' + n, '-') for n in POPULATE]
    out += [('parser.make' + n, '-') for n in PARSED.get(prop, [])]
    out += [('strings.' + n, '-') for n in STRINGS.get(prop, [])]
    out += [('text.' + n, '-') for n in TEXTS.get(prop, [])]
    slow = ['parser.' + n for n in POPULATE] + ['visit.MultipleOfDouble', 'visit.Properties', 'visit.Format', 'visit.MultipleOfInt', 'visit.UniqueItems', 'visit.LinearItems', 'visit.Maximum', 'visit.Minimum', 'visit.OneOf', 'visit.Dependencies',
            'parser.makeMaximum', 'parser.makeMinimum', 'parser.makeType', 'parser.makeLinearItems', 'parser.makeProperties3']
    return sorted(out, key=lambda t: (slow.index(t[0]) if t[0] in slow else 99, t))


def relevant(prop, spec, kind):
    """does an obligation of this kind belong to the property? (a verdict may be wrong although errors agree with it, and the
    other way round)"""
    family = spec.partition('.')[0]
    if family == 'parser' and (kind in ('where', 'reject') or prop == 'P16'):
        # where a sub-schema is compiled decides what references to it mean; which keywords are malformed concerns P20 only
        return prop == {'where': 'P16', 'reject': 'P20'}.get(kind)
    if family in ('visit', 'schema'):
        if kind == 'path':
            return prop == 'P12'
        if kind == 'errors':
            return prop == 'P11'
        if prop == 'P11' and kind == 'safety':
            return False
        if prop == 'P12':
            return False
    return True


def elsewhere(prop, spec):
    """kinds of obligations that are decided by the checks of other properties and need not be decided again in this one"""
    family = spec.partition('.')[0]
    if prop is None:
        return frozenset()
    return frozenset(k for k in ('post', 'safety', 'errors', 'path', 'where', 'reject') if not relevant(prop, spec, k)) if family in ('visit', 'schema', 'parser') else frozenset()


def all_tasks():
    seen = []
    for i in range(1, 22):
        for t in tasks('P%02d' % i, True):
            if t not in seen:
                seen.append(t)
    return seen


def notes(prop):
    return NOTES.get(prop, [])


def run(module, spec, variant):
    kind, _, name = spec.partition('.')
    if kind == 'visit':
        from . import visits
        return visits.run(module, name, variant)
    if kind == 'adapter':
        from . import adapters
        return adapters.run(module, name)
    if kind == 'schema':
        from . import schemas
        return schemas.run(module, name, variant)
    if kind == 'results':
        from . import results
        return results.run(module, name)
    if kind == 'text':
        from . import texts
        return texts.run(module, name)
    if kind == 'parser':
        from . import parsers
        return parsers.run(module, name)
    if kind == 'strings':
        from . import strings
        return strings.run(module, name)
    raise KeyError(spec)
