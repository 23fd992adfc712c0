"""Decide the limits at and next to every boundary (P22)."""
import json
import math

from checks import trichecks
from vlib import common, tri

TEXT = 'is limited.'
INT_BOUNDS = [0, 1, -1, 5, -5, 255, -2**31, 2**31 - 1, 2**31, 2**32,
              2**53 - 1, -2**53, 2**53, 2**60, -2**62, 10**15, -10**15,
              2**63 - 1, -2**63 + 1, -2**63]
FLOAT_BOUNDS = [0, 0.0, -0.0, 0.1, -0.1, 1 / 3, 0.5, 3, -7, 1.5, 1e-300,
                -1e-300, 5e-324, 2.2250738585072014e-308, 1e300, -1e300,
                1.7976931348623157e308, 123456789.12345679, 1e22, 1e23,
                -0.30000000000000004, 2**53, 4503599627370496.5,
                9007199254740993.0, 1e15 + 0.3, 100000.0, 1e16, 1e-5]
FLAGS = [None, False, True]


def floats_next(value):
    """List the neighbours of a float."""
    value = float(value)
    return [got for got in (math.nextafter(value, -math.inf),
                            math.nextafter(value, math.inf))
            if math.isfinite(got)]


def is_empty(a_type):
    """Check that no value lies within the bounds."""
    low, high = a_type.get('minimum'), a_type.get('maximum')
    if low is None or high is None:
        return False
    open_low = a_type.get('exclusive_minimum', False)
    open_high = a_type.get('exclusive_maximum', False)
    if a_type['type'] == 'integer':
        return low + bool(open_low) > high - bool(open_high)
    return low > high or (low == high and (open_low or open_high))


def number_types(name, bounds, steps):
    """List the combinations of the bounds and of the exclusivity."""
    result = [{'type': name}]
    for bound in bounds:
        for flag in FLAGS:
            for which in ('minimum', 'maximum'):
                a_type = {'type': name, which: bound}
                if flag is not None:
                    a_type['exclusive_' + which] = flag
                result.append(a_type)
        for step in steps(bound):
            for first in FLAGS:
                for second in FLAGS:
                    a_type = {'type': name, 'minimum': bound,
                              'maximum': step}
                    if first is not None:
                        a_type['exclusive_minimum'] = first
                    if second is not None:
                        a_type['exclusive_maximum'] = second
                    if not is_empty(a_type):
                        result.append(a_type)
    return result


def int_steps(bound):
    """Give upper bounds for the lower one."""
    return [bound + step for step in (0, 1, 2, 3, 1000)
            if bound + step < 2**63]


def float_steps(bound):
    """Give upper bounds for the lower one."""
    result = [bound]
    result += floats_next(bound)[1:]
    result += [high for high in (bound + 1, bound + 0.25, bound * 1.5)
               if high > bound and math.isfinite(high)]
    return result


def size_types():
    """List the combinations of sizes and types of the items."""
    result = []
    for low in (None, 0, 1, 2, 3, 17):
        for high in (None, 0, 1, 2, 3, 17, 40):
            if low is not None and high is not None and low > high:
                continue
            for values in ({'type': 'integer'}, {'type': 'string'},
                           {'type': 'array', 'values': {'type': 'boolean'},
                            'maximum_size': 2},
                           {'type': 'map', 'values': {'type': 'float'}}):
                a_type = {'type': 'array', 'values': values}
                if low is not None:
                    a_type['minimum_size'] = low
                if high is not None:
                    a_type['maximum_size'] = high
                result.append(a_type)
    return result


ALL_TYPES = (number_types('integer', INT_BOUNDS, int_steps)
             + number_types('float', FLOAT_BOUNDS, float_steps)
             + size_types())


def sample_of(a_type):
    """Give a value of the type."""
    return {'integer': 7, 'string': 'x', 'float': 0.5, 'boolean': True,
            'array': [True], 'map': {'k': 2.5}}[a_type['type']]


def candidates(a_type):
    """List the values at and next to the limits."""
    name = a_type['type']
    bounds = [a_type[key] for key in ('minimum', 'maximum') if key in a_type]
    result = []
    if name == 'integer':
        for bound in bounds:
            result += [bound, bound - 1, bound + 1, bound - 2048,
                       bound + 2048, -bound]
        if len(bounds) == 2:
            result.append((bounds[0] + bounds[1]) // 2)
        result += [0, 2**63, 2**63 - 1, 2**63 - 1024, -2**63, -2**63 - 1,
                   -2**63 - 2048, 2**64, -2**64, 2**31, -2**31 - 1, 2**53,
                   10**30]
    elif name == 'float':
        for bound in bounds:
            result += [bound, float(bound), -bound] + floats_next(bound)
        if len(bounds) == 2:
            result.append(bounds[0] + (bounds[1] - bounds[0]) / 2)
        result += [0, 0.0, -0.0, 1, -1, 1e308, -1e308, 5e-324, 2**40]
    else:
        sizes = {0, 1, 2, 3}
        for key in ('minimum_size', 'maximum_size'):
            if key in a_type:
                sizes |= {a_type[key] - 1, a_type[key], a_type[key] + 1}
        result = [[sample_of(a_type['values'])] * size
                  for size in sorted(sizes) if size >= 0]
    return result


def comparable(a_type, value, lang):
    """Check that the language sees the very value."""
    name = a_type['type']
    if name == 'integer' and lang == 'go':
        if int(float(value)) != value:
            return False
    if name == 'integer' and lang == 'cpp' and not -2**63 <= value < 2**64:
        # the JSON library reads such a number as a double
        if int(float(value)) != value:
            return False
    if name == 'float' and isinstance(value, int) and int(
            float(value)) != value:
        return False
    return True


def within(a_type, value, lang):
    """Decide whether the value has to be accepted."""
    if a_type['type'] == 'array':
        low, high = a_type.get('minimum_size'), a_type.get('maximum_size')
        return not ((low is not None and len(value) < low)
                    or (high is not None and len(value) > high))
    if a_type['type'] == 'integer' and lang != 'py':
        if not -2**63 <= value < 2**63:
            return False
    low, high = a_type.get('minimum'), a_type.get('maximum')
    if low is not None:
        if value < low or (
                value == low and a_type.get('exclusive_minimum', False)):
            return False
    if high is not None:
        if value > high or (
                value == high and a_type.get('exclusive_maximum', False)):
            return False
    return True


def good(a_type, lang):
    """Find a value within the limits."""
    for value in candidates(a_type):
        if comparable(a_type, value, lang) and within(a_type, value, lang):
            return value
    return None


# contexts: name -> (type of the property, value, path of the item)
FLAT = [
    ('plain', lambda t: t, lambda v, g: v, []),
    ('optional', lambda t: dict(t, optional=True), lambda v, g: v, []),
    ('array', lambda t: {'type': 'array', 'values': t},
     lambda v, g: [g, v, g], [1]),
    ('map', lambda t: {'type': 'map', 'values': t},
     lambda v, g: {'a': g, 'it\'s': v}, ['it\'s']),
    ('optional array of maps',
     lambda t: {'type': 'array', 'minimum_size': 1, 'optional': True,
                'values': {'type': 'map', 'values': t}},
     lambda v, g: [{}, {'k': v}], [1, 'k']),
    ('map of arrays of arrays',
     lambda t: {'type': 'map', 'values': {
         'type': 'array', 'values': {'type': 'array', 'values': t}}},
     lambda v, g: {'x': [[g], [], [g, v]]}, ['x', 2, 1]),
]


def order(a_type, text=TEXT):
    """Describe a property."""
    result = {'type': a_type['type'], 'description': text}
    result.update(a_type)
    return result


class Plan:
    """Pack the types into a schema and the values into documents."""

    def __init__(self, kind, types, rotation):
        self.kind = kind
        self.entries = []
        props = {}
        for number, a_type in enumerate(types):
            context = FLAT[(number + rotation) % len(FLAT)]
            if any(good(a_type, lang) is None for lang in tri.LANGS):
                # no value can be given in one of the languages
                context = FLAT[1]
            name = 'p{}'.format(number)
            props[name] = order(context[1](a_type))
            self.entries.append((name, a_type, context))
        mapping = {
            'name': 'Limits', 'description': TEXT,
            'cpp': {'namespace': 'limits',
                    'path_as': 'std::filesystem::path',
                    'optional_as': 'std::optional',
                    'datetime_library': 'ctime'},
            'go': {'package': 'limits'},
            'py': {'module_name': 'limits', 'path_as': 'str',
                   'timezone_as': 'str'}}
        if kind == 'graph':
            mapping['properties'] = props
        elif kind == 'class':
            mapping['classes'] = [{'name': 'Part', 'description': TEXT,
                                   'properties': props}]
        else:
            mapping['properties'] = {
                'e': {'type': 'Part', 'description': TEXT}}
            mapping['embeds'] = [{'name': 'Part', 'description': TEXT,
                                  'properties': props}]
        self.mapping = mapping

    def wrap(self, props, lang):
        """Put the properties in place: document, reference."""
        if self.kind == 'graph':
            return props, 'ref'
        if self.kind == 'class':
            return {'parts': {'a/b': props}}, 'ref/parts/{}'.format(
                repr('a/b') if lang == 'py' else 'a/b')
        return {'e': props}, 'ref/e'

    def place(self, entry, value, lang, ref):
        """Wrap the value: the item, reference, what it has to be."""
        name, a_type, (_, _, pack, path) = entry
        item = pack(value, good(a_type, lang))
        ref = '{}/{}'.format(ref, name)
        for part in path:
            if lang == 'py' and isinstance(part, str):
                part = repr(part)
            ref += '/{}'.format(part)
        return item, ref, within(a_type, value, lang)

    def documents(self, lang):
        """Iterate over (document, expected references)."""
        usable = [entry for entry in self.entries
                  if good(entry[1], lang) is not None]
        lists = {
            entry[0]: [value for value in candidates(entry[1])
                       if comparable(entry[1], value, lang)]
            for entry in usable}
        base = {}
        for entry in usable:
            base[entry[0]] = self.place(
                entry, good(entry[1], lang), lang, '')[0]
        _, ref = self.wrap({}, lang)
        if self.kind == 'graph':
            for turn in range(max(len(got) for got in lists.values())):
                props, expected = dict(base), []
                for entry in usable:
                    got = lists[entry[0]]
                    item, where, fine = self.place(
                        entry, got[turn % len(got)], lang, ref)
                    props[entry[0]] = item
                    if not fine:
                        expected.append(where)
                yield self.wrap(props, lang)[0], expected
            return
        for entry in usable:
            for value in lists[entry[0]]:
                item, where, fine = self.place(entry, value, lang, ref)
                yield self.wrap(dict(base, **{entry[0]: item}), lang)[0], (
                    [] if fine else [where])


def item(rec, pair):
    """Run the values of one plan."""
    local, _ = pair
    with trichecks.CURRENT.session(rec, local) as session:
        plan = PLANS[json.dumps(session.mapping)]
        for lang in session.langs:
            for doc, expected in plan.documents(lang):
                res = session.request(lang, doc)
                replay = {'schema': session.mapping, 'language': lang,
                          'document': doc}
                rec.observe((lang, json.dumps(doc), local), True)
                if res.trouble:
                    return rec.violation('{}: {}'.format(lang, res.trouble),
                                         replay)
                got, want = set(res.refs), set(expected)
                rec.count('limits_' + lang, len(plan.entries)
                          if plan.kind == 'graph' else 1)
                if got != want or len(res.refs) != len(expected):
                    return rec.violation(
                        '{}: wrongly rejected {!r}, wrongly accepted '
                        '{!r}'.format(lang, sorted(got - want)[:3],
                                      sorted(want - got)[:3]), replay)
                rec.count('rejected_' + lang, len(expected))
                rec.count('accepted_' + lang if not expected
                          else 'partly_rejected_' + lang)
    return None


PLANS = {}


def p22():
    """Decide P22."""
    check = common.Check(
        'P22', 'a distinct (schema, language, document) triple with values '
        'at or next to the limits')
    for lang in tri.LANGS:
        check.require('limits_' + lang, 1000)
        check.require('rejected_' + lang, 500)
    types = list(ALL_TYPES)
    common.rng('P22', 'order').shuffle(types)
    if not common.THOROUGH:
        # each bound appears alone in any case
        alone = [t for t in types if not (
            'minimum' in t and 'maximum' in t) and t['type'] != 'array']
        rest = [t for t in types if t not in alone]
        types = alone + rest[:500]
    mappings = []
    size = 36
    for start in range(0, len(types), size):
        part = types[start:start + size]
        rotations = range(len(FLAT)) if common.THOROUGH else [start // size]
        for rotation in rotations:
            plans = [Plan('graph', part, rotation)]
            number = start // size + rotation
            if common.THOROUGH or number % 3 == 0:
                plans.append(Plan(('class', 'embed')[number % 2],
                                  part[:18], rotation + 1))
            for plan in plans:
                PLANS[json.dumps(plan.mapping)] = plan
                mappings.append(plan.mapping)
    check.count('types', len(types))
    trichecks.run_batches(check, item, mappings)
    return check.finish()
