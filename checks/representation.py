"""Decide how loaded schemas represent their definitions (P25)."""
import collections
import json

from checks import loading
from vlib import common, model, par, schemagen

OD = collections.OrderedDict
# the classes which represent the types
PRIMITIVE = {
    'boolean': 'Boolean', 'integer': 'Integer', 'float': 'Float',
    'string': 'String', 'path': 'Path', 'date': 'Date', 'time': 'Time',
    'datetime': 'Datetime', 'time_zone': 'TimeZone', 'duration': 'Duration',
    'array': 'Array', 'map': 'Map'}
QUERIES = sorted(PRIMITIVE.values()) + ['Class', 'Embed', 'Graph']


class Definition:
    """Index a definition and answer the queries independently."""

    def __init__(self, mapping):
        self.comps = OD()
        for group, kind in (('classes', 'Class'), ('embeds', 'Embed')):
            for i, comp in enumerate(mapping.get(group, [])):
                self.comps[comp['name']] = (
                    kind, '/{}/{}'.format(group, i), comp)
        self.graph = mapping

    def all(self):
        """List (kind, place, definition) of all the composites."""
        return list(self.comps.values()) + [('Graph', '', self.graph)]

    @staticmethod
    def nested(a_type):
        """List the type and the types nested in it, with their places."""
        place = ''
        result = []
        while a_type is not None:
            result.append((place, a_type))
            place += '/values'
            a_type = a_type.get('values')
        return result

    def kind(self, name):
        """Name the class which represents the type."""
        return PRIMITIVE.get(name) or self.comps[name][0]

    def reached(self, starts):
        """Collect the names of the types reached from the definitions."""
        found = set()
        todo = list(starts)
        while todo:
            for _, nested in self.nested(todo.pop()):
                name = nested['type']
                if name in found:
                    continue
                found.add(name)
                if name in self.comps:
                    todo.extend(self.comps[name][2].get(
                        'properties', {}).values())
        return found

    def needed(self, kind, comp):
        """Collect the representing classes which a composite needs."""
        starts = list(comp.get('properties', {}).values())
        kinds = {kind}
        if kind == 'Graph':
            for other_kind, _, other in self.comps.values():
                kinds.add(other_kind)
                starts.extend(other.get('properties', {}).values())
        return kinds | {self.kind(name) for name in self.reached(starts)}

    def referenced(self, comp):
        """List the names of the classes which the composite refers to."""
        return sorted(
            name for name in self.reached(
                comp.get('properties', {}).values())
            if name in self.comps and self.comps[name][0] == 'Class')


def types_differ(schema, defn, loaded, a_type, path):
    """Compare a loaded type with its definition."""
    import mapry
    for place, nested in defn.nested(a_type):
        where = path + place
        kind = defn.kind(nested['type'])
        if type(loaded) is not getattr(mapry, kind):
            return '{} is a {}'.format(where, type(loaded).__name__)
        if kind in ('Class', 'Embed'):
            group = schema.graph.classes if kind == 'Class' \
                else schema.graph.embeds
            if loaded is not group[nested['type']]:
                return '{} is another object than {}'.format(
                    where, nested['type'])
        if kind == 'Integer':
            for key in ('minimum', 'maximum'):
                got = getattr(loaded, key)
                if got != nested.get(key) or type(got) is not type(
                        nested.get(key)):
                    return '{} of {}: {!r}'.format(key, where, got)
        if kind == 'Float':
            for key in ('minimum', 'maximum'):
                got = getattr(loaded, key)
                if (got is None) != (key not in nested):
                    return '{} of {}: {!r}'.format(key, where, got)
                # The document is read to doubles as well.
                if got is not None and got != nested[key]:
                    return '{} of {}: {!r}'.format(key, where, got)
        loaded = getattr(loaded, 'values', None)
    return None


def differs(schema, mapping, ref):
    """Tell what of the loaded schema differs from the definition."""
    # pylint: disable=too-many-return-statements
    problem = loading.unfaithful(schema, mapping)
    if problem:
        return problem
    graph = schema.graph
    if graph.ref != ref:
        return 'the reference of the graph: {!r}'.format(graph.ref)
    for key, default in (('cpp', 2), ('py', 4)):
        if key in mapping and getattr(schema, key).indention != mapping[
                key].get('indention', ' ' * default):
            return 'the indention of {}'.format(key)
    defn = Definition(mapping)
    for kind, place, comp in defn.all():
        loaded = {'Class': graph.classes, 'Embed': graph.embeds,
                  'Graph': {comp['name']: graph}}[kind][comp['name']]
        if loaded.ref != ref + place:
            return 'the reference of {}: {!r}'.format(comp['name'], loaded.ref)
        for name, prop in comp.get('properties', {}).items():
            got = loaded.properties[name]
            path = '{}{}/{}'.format(ref, place, name)
            if got.ref != path:
                return 'the reference of {}: {!r}'.format(path, got.ref)
            problem = types_differ(schema, defn, got.type, prop, path)
            if problem:
                return problem
            if got.optional is not prop.get('optional', False):
                return 'optional of {}'.format(path)
    return None


def misanswered(schema, mapping, ref):
    """Tell which of the queries is answered wrongly."""
    # pylint: disable=too-many-locals
    import mapry
    graph = schema.graph
    defn = Definition(mapping)
    places = []
    for kind, place, comp in defn.all():
        loaded = {'Class': graph.classes, 'Embed': graph.embeds,
                  'Graph': {comp['name']: graph}}[kind][comp['name']]
        needed = defn.needed(kind, comp)
        for query in QUERIES:
            got = mapry.needs_type(
                a_type=loaded, query=getattr(mapry, query))
            if got is not (query in needed):
                return '{} needs {}: {!r}'.format(comp['name'], query, got)
        if kind != 'Graph':
            names = [cls.name for cls in mapry.references(a_type=loaded)]
            if sorted(names) != defn.referenced(comp):
                return '{} references {}'.format(comp['name'], names)
        for name, prop in comp.get('properties', {}).items():
            value = loaded.properties[name].type
            for nested_place, nested in defn.nested(prop):
                places.append('{}{}/{}{}'.format(
                    ref, place, name, nested_place))
                reached = {defn.kind(found)
                           for found in defn.reached([nested])}
                for query in QUERIES:
                    got = mapry.needs_type(
                        a_type=value, query=getattr(mapry, query))
                    if got is not (query in reached):
                        return '{} needs {}: {!r}'.format(
                            places[-1], query, got)
                value = getattr(value, 'values', None)
    listed = [place for _, place in mapry.iterate_over_types(graph=graph)]
    if sorted(listed) != sorted(places):
        return 'the types are iterated as {}'.format(listed)
    return None


def p25_item(rec, idx):
    """Load one definition and inspect the representation."""
    rng = common.rng('P25', idx)
    lang = rng.choice(['py', 'go', 'cpp'])
    opts = schemagen.Opts(
        lang, cross=rng.random() < 0.3, depth=rng.choice([1, 3, 6, 9]),
        classes=rng.choice([(0, 0), (0, 4), (2, 9)]),
        embeds=rng.choice([(0, 0), (0, 4), (2, 9)]))
    mapping = schemagen.generate(rng, opts)
    if rng.random() < 0.2:
        mapping.pop(lang, None)
    with common.scratch() as root:
        path = root / rng.choice(['schema.json', 'a b.json', '\u00fc'])
        kind, schema = loading.load(mapping, path)
        if kind != 'schema':
            rec.violation('a valid definition was not loaded: {}'.format(
                schema), {'schema': mapping})
            return
        ref = '{}#'.format(path)
        rec.observe((idx, json.dumps(mapping)),
                    bool(mapping.get('properties') or mapping.get('classes')))
        rec.count('types', sum(
            1 for _ in model.Schema(mapping).all_types()))
        problem = differs(schema, mapping, ref) or misanswered(
            schema, mapping, ref)
        if problem:
            rec.violation(problem, {'schema': mapping})
            return
        rec.count('loaded')
        # Loading again, from the memory, gives an equal representation.
        kind, again = loading.load(mapping)
        if kind != 'schema':
            rec.violation('not loaded from the memory: {}'.format(again),
                          {'schema': mapping})
            return
        problem = differs(again, mapping, loading.REF) or differs(
            schema, mapping, ref)
        if problem:
            rec.violation('loaded from the memory: {}'.format(problem),
                          {'schema': mapping})
            return
        rec.count('loaded_again')


def p25():
    """Decide P25."""
    check = common.Check(
        'P25', 'a distinct definition with properties or classes whose '
        'loaded representation and answers to the queries were compared '
        'with the definition')
    check.require('loaded', 500)
    check.require('types', 5000)
    par.run(check, p25_item, range(common.scale(2000, 30000)))
    return check.finish()
