"""Check the loading of schemas (P13)."""
import collections
import copy
import json
import pathlib
import re
import signal

from vlib import common, docgen, model, par, rules, schemagen
from vlib import codegen

OD = collections.OrderedDict
REF = 'some/schema.json#'


# -- mutations ------------------------------------------------------------
def walk(value, path=()):
    """List all the places in a JSON value."""
    yield path
    if isinstance(value, dict):
        for key in value:
            yield from walk(value[key], path + (key, ))
    elif isinstance(value, list):
        for i, item in enumerate(value):
            yield from walk(item, path + (i, ))


def at(value, path):
    """Resolve the place."""
    for key in path:
        value = value[key]
    return value


JUNK = [
    None, True, False, 0, 1, -1, 2**40, -2**70, 10**400, 0.5, -0.0, 1e300,
    float('inf'), float('-inf'), '', 'x', 'X', 'integer', 'Some_thing', 'a b', '%', '%Q',
    '%1', '(', '[', '*', '(?P<x', 'a{2,1}', '\n', 'name\n', 'Name\n', '1a',
    'A__b', 'A_', '_A', 'a_', 'does it.', 'Does it.', 'does it', 'does\nit.',
    '\u00e4.', [], {}, [1], [None], {'type': 'integer'}, {'type': 3},
    {'type': []}, {'type': {}}, {'type': 'Unknown'}, {'values': {}},
    {'type': 'array'}, {'type': 'map', 'values': {}}, '%Y%', '%%', '%H',
    {'type': 'map', 'values': {'type': 'map', 'values': {'type': None}}},
    {'type': 'array', 'values': {'type': 'array', 'values': 1}},
    {'type': 'integer', 'optional': True}, {'type': 'float', 'json': 'x'},
    {'type': 'integer', 'pattern': 'x'}, {'type': 'string', 'minimum': 1},
    {'type': 'integer', 'minimum': 'a'}, {'type': 'date', 'format': '%H'},
    {'type': 'time', 'format': '%Y'}, {'type': 'datetime', 'format': '%j'},
]
TYPES = sorted(rules.PRIMITIVES)


def types_of(mapping):
    """List the places of the type definitions."""
    result = []
    comps = [(mapping, ())]
    for group in ('classes', 'embeds'):
        for i, comp in enumerate(mapping.get(group, [])):
            comps.append((comp, (group, i)))
    for comp, path in comps:
        for name, prop in comp.get('properties', {}).items():
            here = path + ('properties', name)
            result.append(here)
            while isinstance(prop, dict) and 'values' in prop:
                prop = prop['values']
                here = here + ('values', )
                result.append(here)
    return result


def reorder(rng, mapping):
    """Change the order of the keys in place."""
    items = list(mapping.items())
    rng.shuffle(items)
    mapping.clear()
    mapping.update(items)


def constraint(rng, mapping, names):
    """Change or add a constraint of the type definition in place."""
    # pylint: disable=too-many-branches
    name = mapping.get('type')
    pick = rng.randrange(4)
    if pick == 0:
        key = rng.choice([
            'minimum', 'maximum', 'exclusive_minimum', 'exclusive_maximum',
            'pattern', 'format', 'minimum_size', 'maximum_size', 'values',
            'optional', 'json', 'description', 'unknown', 'plural'
        ])
        mapping[key] = rng.choice([
            0, 1, 5, 2.5, True, 'x', '^a$', '%Y', {'type': 'integer'}, 'txt'])
    elif name in ('integer', 'float'):
        base = rng.choice([0, -3, 7, 2**60, -2**63, 10**30])
        delta = rng.choice([-1, 0, 0, 1])
        if name == 'float' and rng.random() < 0.5:
            base += 0.5
        mapping['minimum'] = base
        mapping['maximum'] = base + delta
        for key in ('exclusive_minimum', 'exclusive_maximum'):
            if rng.random() < 0.5:
                mapping[key] = rng.random() < 0.6
            else:
                mapping.pop(key, None)
    elif name in ('string', 'path'):
        mapping['pattern'] = rng.choice([
            '^a$', '(', ')', '[', '*a', 'a**', '(?P<n', '\\', '(?i)a', '',
            '^[a-z]+$', 'a{3,2}', '\\1', '(?<=a+)b'])
    elif name in ('date', 'time', 'datetime'):
        parts = [
            rng.choice(['%' + rng.choice(
                'aAbBdemyYHIlMPpSzZ%' if rng.random() < 0.9 else
                'jUWcxXfuGgVsnthkDFTRr'),
                        rng.choice(['-', ' ', 'T', ':', '\n', '\u00fc', '/']),
                        rng.choice(['%1', '%', '%-d', '% '])
                        if rng.random() < 0.1 else '.'])
            for _ in range(rng.randint(0, 5))
        ]
        mapping['format'] = ''.join(parts)
    elif name == 'array':
        low = rng.choice([0, 1, 4, -1])
        mapping['minimum_size'] = low
        mapping['maximum_size'] = low + rng.choice([-1, 0, 1])
    else:
        mapping['type'] = rng.choice(TYPES + list(names))


def mutate(rng, mapping):
    """Change the schema in place."""
    # pylint: disable=too-many-branches
    # pylint: disable=too-many-statements
    places = [path for path in walk(mapping) if path]
    pick = rng.randrange(13)
    composites = [('classes', i) for i in range(len(
        mapping.get('classes', [])))]
    composites += [('embeds', i) for i in range(len(
        mapping.get('embeds', [])))]
    names = [at(mapping, path).get('name') for path in composites]
    names = [name for name in names if isinstance(name, str)]
    typed = types_of(mapping)
    if pick == 0:
        path = rng.choice(places)
        parent = at(mapping, path[:-1])
        del parent[path[-1]]
    elif pick == 1:
        path = rng.choice(places)
        at(mapping, path[:-1])[path[-1]] = copy.deepcopy(rng.choice(JUNK))
    elif pick == 2:
        dicts = [path for path in walk(mapping)
                 if isinstance(at(mapping, path), dict)]
        target = at(mapping, rng.choice(dicts))
        target[rng.choice(['unknown', 'name', 'type', 'values', 'id', 'Id',
                           'plural', 'properties', '$ref', 'a_', '_a', '1',
                           'some-name', 'minimum', ''])] = copy.deepcopy(
                               rng.choice(JUNK))
    elif pick == 3:
        dicts = [path for path in walk(mapping)
                 if isinstance(at(mapping, path), dict)
                 and len(at(mapping, path)) > 1]
        if dicts:
            reorder(rng, at(mapping, rng.choice(dicts)))
    elif pick in (4, 5, 6) and typed:
        constraint(rng, at(mapping, rng.choice(typed)), names)
    elif pick == 7 and typed:
        at(mapping, rng.choice(typed))['type'] = rng.choice(
            TYPES + names + [mapping.get('name'), 'Unknown', 'int', 'String',
                             'Array', '', None, 5, ['integer']])
    elif pick == 8 and composites:
        path = rng.choice(composites)
        at(mapping, path)[rng.choice(['name', 'plural'])] = rng.choice(
            names + [mapping.get('name'), 'Xs', 'Other', 'other', 'O-ther',
                     'Other_', 'Oth__er', 'Other\n'])
    elif pick == 9 and composites:
        path = rng.choice(composites)
        mapping[path[0]].append(copy.deepcopy(at(mapping, path)))
        if rng.random() < 0.5:
            mapping[path[0]][-1]['name'] = 'Copy_of_it'
    elif pick == 10 and typed:
        tops = [path for path in typed if path[-1] != 'values']
        comp = at(mapping, rng.choice(tops)[:-1])
        if isinstance(comp, dict):
            keys = list(comp)
            one = rng.choice(keys)
            if isinstance(comp[one], dict):
                comp[one]['json'] = rng.choice(
                    keys + [str(name).lower() + 's' for name in names]
                    + [str(model.plural(name)).lower() for name in names])
            if rng.random() < 0.4:
                comp[rng.choice([
                    str(model.plural(name)).lower() for name in names
                ] or ['x'])] = OD([('type', 'integer'),
                                   ('description', 'gives a number.')])
    elif pick == 11 and mapping.get('embeds'):
        # Let the embeddable structures nest each other.
        embeds = [embed for embed in mapping['embeds']
                  if isinstance(embed, dict)]
        if embeds:
            target = rng.choice(embeds)
            prop = OD([('type', rng.choice(embeds).get('name')),
                       ('description', 'nests it.')])
            if rng.random() < 0.3:
                prop['optional'] = True
            elif rng.random() < 0.3:
                prop = OD([('type', 'array'), ('description', 'nests it.'),
                           ('values', OD([('type', prop['type'])]))])
            if isinstance(target.setdefault('properties', OD()), dict):
                target['properties']['nested_it'] = prop
    elif pick == 12:
        langs = [lang for lang in ('cpp', 'go', 'py') if isinstance(
            mapping.get(lang), dict) and mapping[lang]]
        if langs:
            settings = mapping[rng.choice(langs)]
            settings[rng.choice(list(settings))] = rng.choice([
                '', ' ', '\t', 'a', 'a.b', 'a..b', 'a::b', 'a:b', 'a-b',
                'a b', 'a\n', '1a', 'std::optional', 'ctime', 'date.H',
                'str', 'Str', None, 3, ['a'], '  \n', 'x', 'a.b\n'])


# -- the monitor ----------------------------------------------------------
def describe(a_type):
    """Describe the loaded type in the terms of the schema."""
    import mapry
    result = {}
    if isinstance(a_type, (mapry.Class, mapry.Embed)):
        return {'type': a_type.name}
    result['type'] = {
        'Boolean': 'boolean', 'Integer': 'integer', 'Float': 'float',
        'String': 'string', 'Path': 'path', 'Date': 'date', 'Time': 'time',
        'Datetime': 'datetime', 'TimeZone': 'time_zone',
        'Duration': 'duration', 'Array': 'array', 'Map': 'map'
    }[type(a_type).__name__]
    if result['type'] in ('integer', 'float'):
        for key in ('minimum', 'maximum'):
            value = getattr(a_type, key)
            if value is not None:
                result[key] = value
            if getattr(a_type, 'exclusive_' + key):
                result['exclusive_' + key] = True
    if result['type'] in ('string', 'path') and a_type.pattern is not None:
        result['pattern'] = a_type.pattern.pattern
    if result['type'] in ('date', 'time', 'datetime'):
        result['format'] = a_type.format
    if result['type'] == 'array':
        for key in ('minimum_size', 'maximum_size'):
            if getattr(a_type, key) is not None:
                result[key] = getattr(a_type, key)
    if 'values' in rules.PRIMITIVES[result['type']]:
        result['values'] = describe(a_type.values)
    return result


DEFAULT_FORMATS = {
    'date': '%Y-%m-%d',
    'time': '%H:%M:%S',
    'datetime': '%Y-%m-%dT%H:%M:%SZ'
}


def wanted(mapping):
    """Describe the type definition of the schema."""
    result = {
        key: value
        for key, value in mapping.items()
        if key not in ('description', 'json', 'optional', 'values')
    }
    if mapping['type'] == 'float':
        for key in ('minimum', 'maximum'):
            if key in result:
                result[key] = float(result[key])
    if mapping['type'] in DEFAULT_FORMATS:
        result.setdefault('format', DEFAULT_FORMATS[mapping['type']])
    for key in ('exclusive_minimum', 'exclusive_maximum'):
        if not result.get(key, True):
            del result[key]
    if 'values' in mapping:
        result['values'] = wanted(mapping['values'])
    return result


def unfaithful(schema, mapping):
    """Tell where the loaded schema differs from the definition."""
    # pylint: disable=too-many-return-statements
    graph = schema.graph
    for key in ('cpp', 'go', 'py'):
        loaded = getattr(schema, key)
        if (loaded is None) != (key not in mapping):
            return 'settings of ' + key
        for field, value in mapping.get(key, {}).items():
            if getattr(loaded, field) != value:
                return '{}.{}'.format(key, field)
    comps = [(graph, mapping)]
    for group in ('classes', 'embeds'):
        loaded = getattr(graph, group)
        definitions = mapping.get(group, [])
        if list(loaded) != [comp['name'] for comp in definitions]:
            return group
        comps += list(zip(loaded.values(), definitions))
    for comp, definition in comps:
        name = definition['name']
        if comp.name != name or comp.description != definition['description']:
            return 'name or description of {}'.format(name)
        if definition in mapping.get('classes', []):
            if comp.plural != definition.get('plural', model.plural(name)):
                return 'plural of {}: {!r}'.format(name, comp.plural)
            loaded = None if comp.id_pattern is None \
                else comp.id_pattern.pattern
            if loaded != definition.get('id_pattern'):
                return 'id pattern of {}'.format(name)
        props = definition.get('properties', {})
        if list(comp.properties) != list(props):
            return 'properties of {}'.format(name)
        for key, prop in props.items():
            loaded = comp.properties[key]
            if (loaded.name, loaded.json, loaded.optional,
                    loaded.description) != (
                        key, prop.get('json', key),
                        prop.get('optional', False), prop['description']):
                return 'property {} of {}'.format(key, name)
            if loaded.composite is not comp:
                return 'composite of {} of {}'.format(key, name)
            if describe(loaded.type) != wanted(prop):
                return 'type of {} of {}: {!r}'.format(
                    key, name, describe(loaded.type))
    return None


class Hang(BaseException):
    """Signal that the loading did not terminate."""


def _alarm(signum, frame):
    raise Hang()


def load(mapping, path=None):
    """Load and give ('schema'|'error'|'crash', value)."""
    import mapry.parse
    import mapry.validation
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(20)
    try:
        if path is not None:
            path.write_text(json.dumps(mapping), encoding='utf-8')
            return 'schema', mapry.parse.schema_from_json_file(path=path)
        return 'schema', mapry.parse.schema_from_mapping(
            mapping=mapping, ref=REF)
    except mapry.validation.SchemaError as err:
        return 'error', err
    except Hang:
        return 'crash', 'no result after 20 seconds'
    except Exception as err:  # pylint: disable=broad-except
        return 'crash', '{}: {}'.format(type(err).__name__, err)
    finally:
        signal.alarm(0)


def misplaced(ref, place):
    """Tell if the reference of the only error misses the place."""
    if not ref.startswith(REF):
        return True
    parts = [part for part in ref[len(REF):].split('/') if part]
    want = [str(part) for part in place]
    if parts == want[:len(parts)]:
        return len(parts) < len(want) - 1
    if want == parts[:len(want)]:
        return False
    # The clash with a registry is reported at the property itself.
    return not (parts and want and parts[-1] == want[-1])


def unordered(value):
    """Give the same definition without any order of the keys."""
    if isinstance(value, dict):
        return {key: unordered(value[key]) for key in sorted(
            value, key=lambda key: (str(key)[::-1], repr(key)))}
    if isinstance(value, list):
        return [unordered(item) for item in value]
    return value


ORDER_RULES = {'name-first', 'description-second', 'type-first',
               'description-after-type'}


def judge_unordered(rec, mapping, verdict, replay):
    """Load the definition given as plain dictionaries."""
    plain = unordered(mapping)
    rules_broken = {rule for rule, _ in verdict.broken}
    if rules_broken and not rules_broken - ORDER_RULES:
        return
    kind, got = load(plain)
    if kind == 'crash':
        rec.violation('loading plain dictionaries crashed: {}'.format(got),
                      replay)
    elif bool(rules_broken) != (kind == 'error'):
        rec.violation(
            'plain dictionaries were {} although the rules are {}'.format(
                'refused' if kind == 'error' else 'accepted',
                'broken' if rules_broken else 'kept'), replay)
    elif kind == 'schema':
        names = sorted(mapping.get('properties', {}))
        if list(got.graph.properties) != names:
            rec.violation('the properties {} were loaded as {}'.format(
                names, list(got.graph.properties)), replay)
        else:
            rec.count('unordered')


def judge_load(rec, mapping, path=None):
    """Load the schema and compare with the rules."""
    verdict = rules.judge(mapping)
    pristine = json.dumps(mapping)
    replay = {'schema': pristine}
    kind, got = load(mapping, path)
    rec.observe(pristine, True)
    for rule, _ in verdict.broken:
        rec.count('rule:' + rule)
    if len(verdict.broken) == 1:
        rec.count('only:' + verdict.broken[0][0])
    if kind == 'crash':
        rec.violation('loading crashed: {} (broken: {})'.format(
            got, verdict.broken[:3]), replay)
        return
    if path is None and json.dumps(mapping) != pristine:
        rec.violation('loading changed the definition', replay)
        return
    if verdict.unsure:
        rec.count('unspecified')
        return
    if path is None and isinstance(mapping, dict) and (
            len(pristine) % 4 == 0):
        judge_unordered(rec, mapping, verdict, replay)
    if verdict.broken:
        rec.count('refused' if kind == 'error' else 'wrongly accepted')
        if kind != 'error':
            rec.violation('accepted although it breaks {}'.format(
                verdict.broken[:5]), replay)
        elif path is None:
            if not str(got).strip() or REF not in str(got):
                rec.violation('an error without a place: {!r}'.format(
                    str(got)), replay)
            elif len(verdict.broken) == 1 and '\n' not in str(got) \
                    and misplaced(got.ref, verdict.broken[0][1]):
                rec.violation('the error {!r} does not refer to {}'.format(
                    str(got), verdict.broken[0]), replay)
            else:
                rec.count('places')
        return
    if kind == 'error':
        rec.violation('refused a schema which breaks no rule: {}'.format(
            got), replay)
        return
    rec.count('accepted')
    diff = unfaithful(got, mapping)
    if diff:
        rec.violation('the loaded schema differs: ' + diff, replay)


def p13_item(rec, idx):
    """Load mutations of one schema."""
    rng = common.rng('P13', idx)
    cross = idx % 3 == 0
    base = schemagen.generate(
        rng, schemagen.Opts(rng.choice(['py', 'go', 'cpp']), cross=cross,
                            embeds=(1, 3), classes=(1, 4), props=(1, 4)))
    with common.scratch() as root:
        judge_load(rec, base)
        judge_load(rec, base, root / 'schema.json')
        for number in range(common.scale(60, 200)):
            mapping = copy.deepcopy(base)
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                try:
                    mutate(rng, mapping)
                except (TypeError, KeyError, AttributeError, IndexError):
                    # An earlier mutation removed the target.
                    pass
            judge_load(rec, mapping,
                       root / 'schema.json' if number % 10 == 0 else None)
        hostile = docgen.hostile_value if hasattr(
            docgen, 'hostile_value') else None
        if hostile is not None:
            for _ in range(10):
                judge_load(rec, hostile(rng))


# Type definitions which follow the rules
GOOD_TYPES = [
    {'type': 'boolean'}, {'type': 'duration'}, {'type': 'time_zone'},
    {'type': 'integer', 'minimum': 3, 'maximum': 3},
    {'type': 'integer', 'minimum': 3, 'maximum': 3,
     'exclusive_minimum': False, 'exclusive_maximum': False},
    {'type': 'integer', 'minimum': -4, 'exclusive_minimum': True},
    {'type': 'integer', 'maximum': -4, 'exclusive_maximum': True},
    {'type': 'float', 'minimum': 3, 'maximum': 3},
    {'type': 'float', 'minimum': 0.5, 'maximum': 0.75,
     'exclusive_minimum': True, 'exclusive_maximum': True},
    {'type': 'float', 'minimum': -1e308, 'maximum': 1e308},
    {'type': 'float', 'minimum': 0.1, 'maximum': 0.1},
    {'type': 'string', 'pattern': ''}, {'type': 'path', 'pattern': '^a$'},
    {'type': 'date', 'format': '%a%A%b%B%d%e%m%y%Y%z%Z%%'},
    {'type': 'time', 'format': '%H%I%l%M%P%p%S%z%Z%%'},
    {'type': 'datetime', 'format': '%a%A%b%B%d%e%m%y%Y%H%I%l%M%P%p%S%z%Z%%'},
    {'type': 'array', 'values': {'type': 'integer'}, 'minimum_size': 0,
     'maximum_size': 0},
    {'type': 'array', 'values': {'type': 'Some_class'}, 'minimum_size': 7},
    {'type': 'map', 'values': {'type': 'Some_embed'}},
    {'type': 'map', 'values': {'type': 'string', 'description': 'x'}},
]


def bad_types():
    """List the type definitions which break one rule each."""
    result = [
        {'type': 'integer', 'minimum': 4, 'maximum': 3},
        {'type': 'float', 'minimum': 0.75, 'maximum': 0.5},
        {'type': 'string', 'pattern': '('}, {'type': 'path', 'pattern': '['},
        {'type': 'array'}, {'type': 'map'},
        {'type': 'array', 'values': {}}, {'type': 'map', 'values': {}},
        {'type': 'array', 'values': []}, {'type': 'map', 'values': 'integer'},
        {'type': 'array', 'values': {'type': 'integer'}, 'minimum_size': 2,
         'maximum_size': 1},
        {'type': 'array', 'values': {'type': 'integer'}, 'minimum_size': -1},
        {'type': 'array', 'values': {'type': 'integer'}, 'maximum_size': -1},
        {'type': 'Some_graph'}, {'type': 'Unknown'}, {'type': 'Integer'},
        {'type': ''}, {'type': 'embed'}, {'type': 5}, {'type': None},
        {'type': ['integer']}, {'type': {'type': 'integer'}},
        {'type': 'float', 'minimum': 10**400},
        {'type': 'float', 'maximum': float('inf')},
        {'type': 'float', 'minimum': float('-inf')},
        {'type': 'map', 'values': {'type': 'string', 'optional': True}},
        {'type': 'map', 'values': {'type': 'string', 'json': 'x'}},
        {'type': 'array', 'values': {'type': 'string', 'optional': False}},
    ]
    for name in ('integer', 'float'):
        for low, high in [(True, True), (True, False), (False, True)]:
            result.append({
                'type': name, 'minimum': 3, 'maximum': 3,
                'exclusive_minimum': low, 'exclusive_maximum': high})
    for kind, letters in rules.DIRECTIVES.items():
        for letter in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ':
            if letter not in letters:
                result.append({'type': kind, 'format': '%S%' + letter
                               if kind == 'time' else '%' + letter + '.%d'})
        for fmt in ('%', '%d%' if kind != 'time' else '%H%', '%1', '% ',
                    '%-d', '%%%'):
            result.append({'type': kind, 'format': fmt})
        if kind != 'datetime':
            result.append({'type': kind, 'format': ''})
    values = {'int': ['1', True, None, 0.5, [1]],
              'num': ['1', True, None, {}],
              'size': ['1', True, None, 1.5],
              'bool': [0, 1, 'true', None], 'str': [1, None, ['x'], True],
              'dict': [1, None]}
    others = {'minimum': 1, 'maximum': 1, 'exclusive_minimum': True,
              'exclusive_maximum': True, 'pattern': 'x', 'format': '%d',
              'minimum_size': 1, 'maximum_size': 1,
              'values': {'type': 'integer'}, 'foo': 1, 'plural': 'Xs',
              'id_pattern': 'x', 'name': 'X'}
    for name, constraints in list(rules.PRIMITIVES.items()) + [
            ('Some_class', {}), ('Some_embed', {})]:
        base = {'type': name}
        if 'values' in constraints:
            base['values'] = {'type': 'integer'}
        for key, kind in constraints.items():
            for value in values[kind]:
                result.append(dict(base, **{key: value}))
        for key, value in others.items():
            if key not in constraints:
                result.append(dict(base, **{key: value}))
    return result


def in_context(a_type, context, nesting):
    """Put the type definition in a schema."""
    for name in nesting:
        a_type = OD([('type', name), ('values', OD(a_type))])
    a_type = OD(a_type)
    prop = OD()
    if 'type' in a_type:
        prop['type'] = a_type.pop('type')
    prop['description'] = 'gives it.'
    prop.update(a_type)
    schema = OD([('name', 'Some_graph'), ('description', 'defines it.')])
    schema['classes'] = [
        OD([('name', 'Some_class'), ('description', 'defines it.')])]
    schema['embeds'] = [
        OD([('name', 'Some_embed'), ('description', 'defines it.')]),
        OD([('name', 'Other_embed'), ('description', 'defines it.')])]
    target = {'graph': schema, 'class': schema['classes'][0],
              'embed': schema['embeds'][1]}[context]
    target['properties'] = OD([('some_property', prop)])
    return schema


def p13_systematic(rec, item):
    """Put each good and each bad type definition everywhere."""
    context, nesting = item
    for bad, a_types in [(False, GOOD_TYPES), (True, bad_types())]:
        for a_type in a_types:
            schema = in_context(a_type, context, nesting)
            verdict = rules.judge(schema)
            if verdict.unsure or bool(verdict.broken) != bad:
                raise RuntimeError('the oracle contradicts the list: {!r} '
                                   '{!r}'.format(a_type, verdict.broken))
            judge_load(rec, schema)
            rec.count('systematic_bad' if bad else 'systematic_good')


# Names, settings and structures: a rich definition which breaks no rule
BASE = {
    'name': 'Some_graph', 'description': 'defines it.',
    'cpp': {'namespace': 'some::nested', 'path_as': 'std::filesystem::path',
            'optional_as': 'std::optional', 'datetime_library': 'ctime',
            'indention': '  '},
    'go': {'package': 'somegraph'},
    'py': {'module_name': 'some.nested', 'path_as': 'str',
           'timezone_as': 'str', 'indention': '  '},
    'classes': [
        {'name': 'First_class', 'plural': 'Many_of_first',
         'description': 'defines it.', 'id_pattern': '^a$',
         'properties': {'some_property': 'x', 'other_property': 'y'}},
        {'name': 'Some_city', 'description': 'defines it.',
         'properties': {'some_property': 'x', 'other_property': 'y'}}],
    'embeds': [
        {'name': 'First_embed', 'description': 'defines it.',
         'properties': {'some_property': 'x', 'other_property': 'y'}},
        {'name': 'Other_embed', 'description': 'defines it.',
         'properties': {'some_property': 'x', 'other_property': 'y'}}],
    'properties': {'some_property': 'x', 'other_property': 'y'},
}
BAD_NAMES = ['', '1a', 'a_', '_a', 'A_', '_A', 'a-b', 'a b', 'a.b', 'a\n',
             'A\n', '\na', 'a\u00fc', '\u00fca', 'a$', '$', 'a/b', 'a\x00',
             'A.B', 'A B', 'A-', 'a\u0660', 'A\u0660', '\u0410b', 'x\ufb01x']
BAD_DESCRIPTIONS = ['', 'Defines it.', 'defines it', '.', ' defines it.',
                    '1 defines it.', 'defines it. ', 'defines\nit.', 'a\n.',
                    'defines it.\n\n', '\ndefines it.', '_x.', '\u00fcx.']
GOOD_DESCRIPTIONS = ['a.', 'defines It..', 'x \t.', 'd\u00fc\u6f22.', 'aBC.']
GOOD_NAMES = ['x', 'X', 'aB', 'a__b', 'a_1', 'x1', 'ID', 'a1_b2_C3', 'a_B']


def full():
    """Copy the rich definition with ordered keys."""
    def rec(value):
        if isinstance(value, dict):
            return OD((key, rec(item)) for key, item in value.items())
        if isinstance(value, list):
            return [rec(item) for item in value]
        return value

    result = rec(BASE)
    for comp in [result] + result['classes'] + result['embeds']:
        for name in comp['properties']:
            comp['properties'][name] = OD(
                [('type', 'integer'), ('description', 'gives it.')])
    return result


PLACES = [(), ('classes', 0), ('classes', 1), ('embeds', 0), ('embeds', 1)]


def edited(path, action):
    """Edit the rich definition at the place."""
    result = full()
    action(at(result, path))
    return result


def replaced(path, key, value):
    """Set a key at the place."""
    return edited(path, lambda target: target.__setitem__(
        key, copy.deepcopy(value)))


def without(path, key):
    """Remove a key at the place."""
    return edited(path, lambda target: target.__delitem__(key))


def moved(path, key, last):
    """Move a key to an end."""
    return edited(path, lambda target: target.move_to_end(key, last=last))


def renamed(path, old, new):
    """Rename a key at the place."""
    def action(target):
        items = [(new if key == old else key, value)
                 for key, value in target.items()]
        target.clear()
        target.update(items)
    return edited(path, action)


def single_faults():
    """List (rule, definition) such that only the rule is broken."""
    # pylint: disable=too-many-branches,too-many-statements
    result = []

    def add(rule, schema):
        result.append((rule, schema))

    for place in PLACES:
        for name in BAD_NAMES + ['a', 'abc', 'someName']:
            add('composite-name', replaced(place, 'name', name))
        for name in BAD_NAMES:
            add('property-name', renamed(
                place + ('properties', ), 'some_property', name))
            add('property-name', renamed(
                place + ('properties', ), 'other_property', name))
        for text in BAD_DESCRIPTIONS:
            add('description-form', replaced(place, 'description', text))
        for junk in (None, 1, True, [], {}, ['x']):
            add('name-string', replaced(place, 'name', junk))
            add('description-string', replaced(place, 'description', junk))
            prop = place + ('properties', 'some_property')
            add('description-string', replaced(prop, 'description', junk))
            add('json-string', replaced(prop, 'json', junk))
            add('type-string', replaced(prop, 'type', junk))
            if junk is not True:
                add('optional-boolean', replaced(prop, 'optional', junk))
            if junk != {}:
                add('properties-object', replaced(place, 'properties', junk))
                add('property-object', replaced(
                    place + ('properties', ), 'some_property', junk))
            if place[:1] == ('classes', ):
                add('plural-string', replaced(place, 'plural', junk))
                add('pattern-string', replaced(place, 'id_pattern', junk))
            if junk != {} and place:
                add('composite-object', replaced(
                    place[:1], place[1], junk))
        add('missing-name', without(place, 'name'))
        add('missing-description', without(place, 'description'))
        for name in ('some_property', 'other_property'):
            prop = place + ('properties', name)
            add('missing-type', without(prop, 'type'))
            add('missing-description', without(prop, 'description'))
            add('type-first', moved(prop, 'type', True))
            for key in ('plural', 'properties', 'name', 'unknown', 'Type'):
                add('applicable-constraint', replaced(prop, key, 'Xyz'))
        add('description-after-type', edited(
            place + ('properties', 'some_property'), lambda prop: (
                prop.__setitem__('optional', True),
                prop.move_to_end('description'))))
        for key in ('type', 'unknown', 'Name', 'id', 'values', '$ref'):
            add('unknown-key', replaced(place, key, 'x'))
        for key in ('plural', 'id_pattern'):
            if place[:1] != ('classes', ):
                add('unknown-key', replaced(place, key, 'X'))
        if place:
            for key in ('cpp', 'go', 'py', 'classes', 'embeds'):
                add('unknown-key', replaced(place, key, BASE[key]))
        if place[:1] == ('classes', ):
            for name in BAD_NAMES + ['abc']:
                add('plural-name', replaced(place, 'plural', name))
            for regex in ('(', ')', '[', '*', 'a**', '(?P<x', '\\', '(?<=a+)'):
                add('pattern-compiles', replaced(place, 'id_pattern', regex))
            for name in ('some_property', 'other_property'):
                add('reserved-id', renamed(
                    place + ('properties', ), name, 'id'))
        for other in PLACES:
            if other != place:
                add('duplicate-name', replaced(
                    place, 'name', at(full(), other)['name']))
        for one, other in [('some', 'other'), ('other', 'some')]:
            one, other = one + '_property', other + '_property'
            prop = place + ('properties', one)
            add('duplicate-json', replaced(prop, 'json', other))
            both = replaced(prop, 'json', 'same')
            at(both, place + ('properties', other))['json'] = 'same'
            add('duplicate-json', both)
    for key, last, rule in [('name', True, None),
                            ('description', True, 'description-second')]:
        add(rule, moved((), key, last))
    add('description-second', edited((), lambda mapping: (
        mapping.move_to_end('classes', last=False),
        mapping.move_to_end('name', last=False))))
    for group in ('classes', 'embeds'):
        for junk in (None, 1, 'x', {}, {'name': 'X'}):
            add(group + '-list', replaced((), group, junk))
    plurals = ['many_of_first', 'some_cities']
    for name in plurals:
        for old in ('some_property', 'other_property'):
            add('registry-clash', renamed(('properties', ), old, name))
            add('registry-clash', replaced(
                ('properties', old), 'json', name))
            hidden = renamed(('properties', ), old, name)
            hidden['properties'][name]['json'] = 'hidden'
            add('registry-clash', hidden)
    for plural in ('Some_cities', 'Some_Cities', 'SOME_CITIES'):
        add('duplicate-registry', replaced(('classes', 0), 'plural', plural))
    add('duplicate-registry', replaced(
        ('classes', 1), 'plural', 'Many_Of_First'))
    for lang, settings in BASE.items():
        if lang not in ('cpp', 'go', 'py'):
            continue
        for junk in (None, 1, 'x', [], True):
            add('settings-object', replaced((), lang, junk))
        add('unknown-key', replaced((lang, ), 'unknown', 'x'))
        for key in settings:
            if key != 'indention':
                add('missing-' + key, without((lang, ), key))
            for junk in (None, 1, True, [], {}, ['  ']):
                add('setting-string', replaced((lang, ), key, junk))
            if key.endswith('_as') or key == 'datetime_library':
                for junk in ('', 'x', settings[key] + ' ',
                             settings[key].upper(), settings[key] + '\n',
                             'std::string'):
                    add('setting-choice', replaced((lang, ), key, junk))
            else:
                for junk in ('-', '1x', 'a-b', 'a.', '.a', 'a::', '::a',
                             'a:b', 'a b', '_x', 'a\n', 'a::\n', 'a..b',
                             'a::::b', 'x\u00fc', 'a.1', 'a::1b',
                             'a::_b', 'a._b'):
                    add('setting-form', replaced((lang, ), key, junk))
    # structures which contain themselves
    for path in (['embeds', 0], ['embeds', 1]):
        own = at(BASE, path)['name']
        for extra in ({}, {'optional': False}):
            prop = OD([('type', own), ('description', 'nests it.')])
            prop.update(extra)
            add('infinite-embed', replaced(
                tuple(path) + ('properties', ), 'nested', prop))
    return result


def single_goods():
    """List definitions which break no rule although they look peculiar."""
    result = [full()]
    for place in PLACES:
        for name in GOOD_NAMES:
            result.append(renamed(
                place + ('properties', ), 'some_property', name))
            if name[0].isupper():
                result.append(replaced(place, 'name', name))
                if place[:1] == ('classes', ):
                    result.append(replaced(place, 'plural', name))
        for text in GOOD_DESCRIPTIONS:
            result.append(replaced(place, 'description', text))
        result.append(without(place, 'properties'))
        result.append(replaced(place, 'properties', OD()))
        prop = place + ('properties', 'some_property')
        for key, values in [
                ('json', ['', 'a b', '\n', 'id', 'Some_graph', '\u00fc']),
                ('optional', [True, False]), ('minimum', [0, -1, 10**30]),
                ('description', ['', 'Anything', '\n', '"', '\u6f22'])]:
            for value in values:
                result.append(replaced(prop, key, value))
        swapped = replaced(prop, 'json', 'other_property')
        at(swapped, place + ('properties', 'other_property'))[
            'json'] = 'some_property'
        result.append(swapped)
        if place[:1] == ('classes', ):
            for regex in ('', '^a$', '(?i)x', '\\d+', '.*', '^$', '\n'):
                result.append(replaced(place, 'id_pattern', regex))
            result.append(replaced(prop, 'json', 'id'))
            result.append(renamed(place + ('properties', ), 'some_property',
                                  'some_cities'))
        if place and place[0] != 'classes':
            result.append(renamed(
                place + ('properties', ), 'some_property', 'id'))
    result.append(renamed(('properties', ), 'some_property', 'id'))
    for key in ('cpp', 'go', 'py', 'classes', 'embeds'):
        result.append(without((), key))
        if key in ('classes', 'embeds'):
            result.append(replaced((), key, []))
        result.append(moved((), key, True))
    for lang, key, values in [
            ('cpp', 'indention', ['', '\t', ' ', '\t  ']),
            ('cpp', 'namespace', ['a', 'A::b', 'a1::b_2::c_', 'std']),
            ('cpp', 'optional_as', ['boost::optional',
                                    'std::experimental::optional']),
            ('cpp', 'path_as', ['boost::filesystem::path']),
            ('cpp', 'datetime_library', ['date.h']),
            ('go', 'package', ['a', 'A', 'a_1', 'a_']),
            ('py', 'module_name', ['a', 'a.b.C_1', 'a_']),
            ('py', 'path_as', ['pathlib.Path']),
            ('py', 'timezone_as', ['pytz.timezone']),
            ('py', 'indention', ['\t', ' ', '    ', '\t '])]:
        for value in values:
            result.append(replaced((lang, ), key, value))
    for lang in ('cpp', 'py'):
        result.append(without((lang, ), 'indention'))
    return result


def p13_structural(rec, chunk):
    """Load the definitions which break exactly one rule of structure."""
    for rule, schema in chunk:
        verdict = rules.judge(schema)
        rec.count('structural_bad' if verdict.broken else 'structural_good')
        if rule is None and verdict.unsure:
            raise RuntimeError('unsure: {}'.format(verdict.unsure))
        if rule is not None and rule not in [
                found for found, _ in verdict.broken]:
            raise RuntimeError('the oracle does not find {} in {}: {}'.format(
                rule, json.dumps(schema), verdict.broken))
        judge_load(rec, schema)


def broken_texts(rng, mapping):
    """Spoil the text of the schema."""
    indent = rng.choice([None, None, 0, 1, 4, '\t'])
    text = json.dumps(mapping, indent=indent, ensure_ascii=rng.random() < 0.5)
    yield text
    for _ in range(12):
        pos = rng.randrange(len(text) + 1)
        if rng.random() < 0.3:
            pos = max(0, len(text) - rng.randrange(4))
        kind = rng.randrange(5)
        end = rng.choice(['', '', '\n', '\n\n', '\r\n', ' ', '\t\n',
                          '\u2028', '\x0c', '\x1c\x85'])
        if kind == 0:
            yield text[:pos] + end
        elif kind == 1:
            yield text[:pos] + text[pos + 1:] + end
        elif kind == 2:
            yield text[:pos] + rng.choice([
                ',', '}', ']', '"', 'x', '\\', '\x0b', '\x00', '\u2028', '//',
                '\n', 'NaN', "'", '\x85', '\ufeff']) + text[pos:] + end
        elif kind == 3:
            yield text + end + rng.choice(['x', '}', '{}', '\x1c', ',']) + end
        else:
            first, _, rest = text.partition('"description"')
            yield '{}"description\u2028\x85\xa0\u2029": 1, "description"{}{}'.format(
                first, rest[:rng.randrange(len(rest) + 1)], end)


def p13_text(rec, idx):
    """Load files which are hardly JSON."""
    import mapry.parse
    import mapry.validation
    rng = common.rng('P13', 'text', idx)
    mapping = schemagen.generate(rng, schemagen.Opts('cpp', cross=True))
    with common.scratch() as root:
        for text in [rng.choice(['', '\n', ' ', '\ufeff{}', '\n\n{', '"\n"',
                                 '\t\t {\n\n'])] + list(
                                     broken_texts(rng, mapping)):
            path = root / rng.choice(['schema.json', 'a b {}.json', '%s'])
            path.write_text(text, encoding='utf-8')
            text = path.read_text(encoding='utf-8')
            replay = {'text': text}
            wrong = None
            try:
                json.loads(text)
            except json.JSONDecodeError as err:
                wrong = err
            except RecursionError:
                continue
            rec.observe((idx, text), wrong is not None)
            problem = None
            try:
                mapry.parse.schema_from_json_file(path=path)
                if wrong is not None:
                    problem = 'a file which is not JSON was loaded'
                rec.count('texts_loaded')
            except mapry.validation.SchemaError as err:
                if wrong is not None:
                    problem = 'a file which is not JSON raised {!r}'.format(
                        err)
                rec.count('texts_refused')
            except RuntimeError as err:
                got = str(err)
                rec.count('texts_not_json')
                if wrong is None:
                    problem = 'JSON was reported as broken: ' + got
                elif str(path) not in got or str(wrong) not in got:
                    problem = 'the message misses the place: ' + got
                else:
                    line = text.split('\n')[wrong.lineno - 1]
                    if len(line) <= 120 and not re.search(
                            '\n' + re.escape(line) + r'\n\s{' + str(
                                wrong.colno - 1) + r'}\^\n', got):
                        problem = 'the message does not show the place: ' + got
            except Exception as err:  # pylint: disable=broad-except
                problem = '{}: {}'.format(type(err).__name__, err)
            if problem:
                rec.violation(problem, replay)
                return


CONTEXTS = [
    (context, nesting) for context in ('graph', 'class', 'embed')
    for nesting in ((), ('array', ), ('map', ), ('map', 'array'),
                    ('array', 'map', 'array', 'array'))
]


def p13():
    """Decide P13."""
    check = common.Check(
        'P13', 'a distinct schema definition which was loaded and judged '
        'against the documented rules')
    for name, at_least in [('accepted', 200), ('refused', 2000),
                           ('places', 1000), ('unordered', 50)]:
        check.require(name, at_least)
    for rule in [
            'schema-object', 'unknown-key', 'missing-name',
            'missing-description', 'missing-type', 'missing-nested-type',
            'missing-values', 'name-first', 'description-second',
            'type-first', 'description-after-type', 'composite-name',
            'duplicate-name', 'description-form', 'setting-choice',
            'setting-form', 'plural-name', 'pattern-compiles', 'reserved-id',
            'property-name', 'duplicate-json', 'type-string', 'known-type',
            'applicable-constraint', 'constraint-type', 'negative-size',
            'empty-range', 'empty-exclusive-range', 'format-directive',
            'format-dangling', 'format-empty', 'empty-sizes',
            'duplicate-registry', 'registry-clash', 'infinite-embed',
            'finite-bound']:
        check.require('rule:' + rule, 1)
    # The schemas of the documentation and of the recorded examples
    for pth in sorted((common.REPO / 'test_cases').glob('**/schema.json')):
        mapping = json.loads(pth.read_text(encoding='utf-8'),
                             object_pairs_hook=OD)
        kind, got = load(mapping)
        check.observe(str(pth))
        check.count('recorded')
        if kind == 'crash':
            check.violation('loading {} crashed: {}'.format(pth, got),
                            {'schema': mapping})
        elif kind == 'schema':
            judge_load(check, mapping)
    for junk in JUNK:
        judge_load(check, junk)
    check.require('systematic_bad', 3000)
    par.run(check, p13_systematic, CONTEXTS)
    structural = single_faults() + [(None, good) for good in single_goods()]
    par.run(check, p13_structural, [
        structural[start::32] for start in range(32)])
    check.require('structural_bad', 500)
    check.require('structural_good', 200)
    check.require('texts_not_json', 500)
    check.require('texts_loaded', 50)
    par.run(check, p13_text, range(common.scale(120, 1200)))
    par.run(check, p13_item, range(common.scale(120, 1200)))
    return check.finish()
