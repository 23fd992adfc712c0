"""Judge a schema against the documented rules, independently of mapry."""
import math
import re

from vlib import model

PRIMITIVES = {
    'boolean': {},
    'integer': {
        'minimum': 'int', 'maximum': 'int',
        'exclusive_minimum': 'bool', 'exclusive_maximum': 'bool'
    },
    'float': {
        'minimum': 'num', 'maximum': 'num',
        'exclusive_minimum': 'bool', 'exclusive_maximum': 'bool'
    },
    'string': {'pattern': 'str'},
    'path': {'pattern': 'str'},
    'date': {'format': 'str'},
    'time': {'format': 'str'},
    'datetime': {'format': 'str'},
    'time_zone': {},
    'duration': {},
    'array': {'values': 'dict', 'minimum_size': 'size',
              'maximum_size': 'size'},
    'map': {'values': 'dict'},
}
COMPOSITE_NAME = re.compile(r'[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?')
PROPERTY_NAME = re.compile(r'[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?')
SETTINGS = {
    'cpp': {
        'namespace': re.compile(
            r'[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*'),
        'path_as': {'std::filesystem::path', 'boost::filesystem::path'},
        'optional_as': {'boost::optional', 'std::optional',
                        'std::experimental::optional'},
        'datetime_library': {'ctime', 'date.h'},
        'indention': re.compile('[ \t]*')
    },
    'go': {'package': re.compile(r'[a-zA-Z][a-zA-Z0-9_]*')},
    'py': {
        'module_name': re.compile(
            r'[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*'),
        'path_as': {'str', 'pathlib.Path'},
        'timezone_as': {'str', 'pytz.timezone'},
        'indention': re.compile('[ \t]+')
    },
}
DIRECTIVES = {
    'date': set('aAbBdemyYzZ%'),
    'time': set('HIlMPpSzZ%'),
}
DIRECTIVES['datetime'] = DIRECTIVES['date'] | DIRECTIVES['time']


def is_int(value):
    """Check for a JSON integer."""
    return isinstance(value, int) and not isinstance(value, bool)


def is_num(value):
    """Check for a JSON number."""
    return is_int(value) or isinstance(value, float)


def ascii_match(pattern, text):
    """Match fully."""
    return pattern.fullmatch(text) is not None


class Verdict:
    """Collect the broken rules and the unspecified points."""

    def __init__(self):
        self.broken = []
        self.unsure = []

    def add(self, rule, place):
        """Record a broken rule."""
        self.broken.append((rule, tuple(place)))

    def maybe(self, what, place):
        """Record an unspecified point."""
        self.unsure.append((what, tuple(place)))


def format_problem(kind, text):
    """Tell what is wrong with the format, None if nothing."""
    if text == '':
        return 'empty'
    i = 0
    while i < len(text):
        if text[i] != '%':
            i += 1
            continue
        if i + 1 == len(text):
            return 'dangling %'
        if text[i + 1] not in DIRECTIVES[kind]:
            return 'directive %' + text[i + 1]
        i += 2
    return None


class Judge:
    """Judge one schema."""

    def __init__(self, mapping):
        self.mapping = mapping
        self.verdict = Verdict()
        self.names = set()

    def judge(self):
        """Give the verdict."""
        verdict, mapping = self.verdict, self.mapping
        if not isinstance(mapping, dict):
            verdict.add('schema-object', [])
            return verdict
        self.keys(mapping, [], {'name', 'description', 'cpp', 'go', 'py',
                                'classes', 'embeds', 'properties'},
                  ('name', 'description'))
        order = list(mapping)
        if 'name' in mapping and 'description' in mapping:
            if order[0] != 'name':
                verdict.add('name-first', ['name'])
            if order[1] != 'description':
                verdict.add('description-second', ['description'])
        for lang, fields in SETTINGS.items():
            if lang in mapping:
                self.settings(mapping[lang], [lang], fields)
        composites = [(mapping, [], 'graph')]
        for group, kind in [('classes', 'class'), ('embeds', 'embed')]:
            if group not in mapping:
                continue
            if not isinstance(mapping[group], list):
                verdict.add(group + '-list', [group])
                continue
            for i, comp in enumerate(mapping[group]):
                place = [group, i]
                if not isinstance(comp, dict):
                    verdict.add('composite-object', place)
                    continue
                known = {'name', 'description', 'properties'}
                if kind == 'class':
                    known |= {'plural', 'id_pattern'}
                self.keys(comp, place, known, ('name', 'description'))
                composites.append((comp, place, kind))
        kinds = {}
        for comp, place, kind in composites:
            self.text(comp, 'description', place, kind == 'any')
            if 'name' in comp:
                if not isinstance(comp['name'], str):
                    verdict.add('name-string', place + ['name'])
                else:
                    if not ascii_match(COMPOSITE_NAME, comp['name']):
                        verdict.add('composite-name', place + ['name'])
                    if comp['name'] in kinds:
                        verdict.add('duplicate-name', place + ['name'])
                    kinds.setdefault(comp['name'], kind)
        self.names = {name for name, kind in kinds.items() if kind != 'graph'}
        for comp, place, kind in composites:
            if kind == 'class':
                self.klass(comp, place)
            self.properties(comp, place)
        self.registries()
        self.recursion(kinds)
        return verdict

    def keys(self, mapping, place, known, required):
        """Check the keys."""
        for key in mapping:
            if key not in known:
                self.verdict.add('unknown-key', place + [key])
        for key in required:
            if key not in mapping:
                self.verdict.add('missing-' + key, place + [key])

    def text(self, comp, key, place, free):
        """Check the description."""
        if key not in comp:
            return
        value = comp[key]
        if not isinstance(value, str):
            self.verdict.add('description-string', place + [key])
        elif not free:
            if not re.fullmatch(r'[a-z]+.*\.\n?', value):
                self.verdict.add('description-form', place + [key])
            elif value.endswith('\n'):
                self.verdict.maybe('description-newline', place + [key])

    def settings(self, mapping, place, fields):
        """Check the settings of a language."""
        if not isinstance(mapping, dict):
            self.verdict.add('settings-object', place)
            return
        self.keys(mapping, place, set(fields),
                  [key for key in fields if key != 'indention'])
        for key, rule in fields.items():
            if key not in mapping:
                continue
            value = mapping[key]
            if not isinstance(value, str):
                self.verdict.add('setting-string', place + [key])
            elif isinstance(rule, set):
                if value not in rule:
                    self.verdict.add('setting-choice', place + [key])
            elif not ascii_match(rule, value):
                self.verdict.add('setting-form', place + [key])

    def klass(self, cls, place):
        """Check what applies only to classes."""
        if 'plural' in cls:
            if not isinstance(cls['plural'], str):
                self.verdict.add('plural-string', place + ['plural'])
            elif not ascii_match(COMPOSITE_NAME, cls['plural']):
                self.verdict.add('plural-name', place + ['plural'])
        if 'id_pattern' in cls:
            self.pattern(cls['id_pattern'], place + ['id_pattern'])
        if isinstance(cls.get('properties'), dict) \
                and 'id' in cls['properties']:
            self.verdict.add('reserved-id', place + ['properties', 'id'])

    def pattern(self, value, place):
        """Check a regular expression."""
        if not isinstance(value, str):
            self.verdict.add('pattern-string', place)
            return
        try:
            re.compile(value)
        except Exception:  # pylint: disable=broad-except
            self.verdict.add('pattern-compiles', place)

    def properties(self, comp, place):
        """Check the properties of a composite."""
        if 'properties' not in comp:
            return
        place = place + ['properties']
        props = comp['properties']
        if not isinstance(props, dict):
            self.verdict.add('properties-object', place)
            return
        jsons = {}
        for name, prop in props.items():
            here = place + [name]
            if not ascii_match(PROPERTY_NAME, name):
                self.verdict.add('property-name', here)
            if not isinstance(prop, dict):
                self.verdict.add('property-object', here)
                continue
            for key in ('type', 'description'):
                if key not in prop:
                    self.verdict.add('missing-' + key, here + [key])
            if 'description' in prop and not isinstance(
                    prop['description'], str):
                self.verdict.add('description-string',
                                 here + ['description'])
            if 'json' in prop and not isinstance(prop['json'], str):
                self.verdict.add('json-string', here + ['json'])
            if 'optional' in prop and not isinstance(prop['optional'], bool):
                self.verdict.add('optional-boolean', here + ['optional'])
            if 'type' in prop and 'description' in prop:
                order = list(prop)
                if order[0] != 'type':
                    self.verdict.add('type-first', here + ['type'])
                elif order[1] != 'description':
                    self.verdict.add('description-after-type',
                                     here + ['description'])
            json_name = prop.get('json', name)
            if isinstance(json_name, str):
                if json_name in jsons:
                    self.verdict.add('duplicate-json', here)
                jsons[json_name] = name
            self.a_type(prop, here, {'type', 'description', 'json',
                                     'optional'})

    def a_type(self, mapping, place, known):
        """Check a type definition recursively."""
        # pylint: disable=too-many-branches
        verdict = self.verdict
        if 'type' not in mapping:
            if 'json' not in known:
                verdict.add('missing-nested-type', place + ['type'])
            return
        name = mapping['type']
        if not isinstance(name, str):
            verdict.add('type-string', place + ['type'])
            return
        constraints = PRIMITIVES.get(name)
        if constraints is None:
            constraints = {}
            if name not in self.names:
                verdict.add('known-type', place + ['type'])
                return
        if 'description' in mapping and 'json' not in known \
                and not isinstance(mapping['description'], str):
            if name in self.names:
                verdict.maybe('nested-description', place)
            else:
                verdict.add('description-string', place + ['description'])
        for key in mapping:
            if key not in known and key not in constraints:
                verdict.add('applicable-constraint', place + [key])
        broken = len(verdict.broken)
        for key, kind in constraints.items():
            if key not in mapping:
                continue
            value, here = mapping[key], place + [key]
            good = {
                'int': is_int,
                'num': is_num,
                'size': is_int,
                'bool': lambda v: isinstance(v, bool),
                'str': lambda v: isinstance(v, str),
                'dict': lambda v: isinstance(v, dict)
            }[kind](value)
            if kind in ('int', 'size') and isinstance(value, float) \
                    and math.isfinite(value) and int(value) == value:
                verdict.maybe('integral-float', here)
            elif not good:
                verdict.add('constraint-type', here)
            elif kind == 'size' and value < 0:
                verdict.add('negative-size', here)
            elif kind == 'num':
                try:
                    if not math.isfinite(float(value)):
                        verdict.add('finite-bound', here)
                except OverflowError:
                    verdict.add('finite-bound', here)
        for key in ('values', ):
            if key in constraints and key not in mapping:
                verdict.add('missing-values', place + [key])
        if len(verdict.broken) == broken:
            self.logic(name, mapping, place)
        if 'values' in constraints and isinstance(
                mapping.get('values'), dict):
            self.a_type(mapping['values'], place + ['values'],
                        {'type', 'description'})

    def logic(self, name, mapping, place):
        """Check the constraints against each other."""
        if name in ('integer', 'float') and 'minimum' in mapping \
                and 'maximum' in mapping:
            low, high = mapping['minimum'], mapping['maximum']
            if name == 'float' and low != high and float(low) == float(high):
                self.verdict.maybe('rounded-bounds', place)
            if low > high:
                self.verdict.add('empty-range', place)
            elif low == high and (mapping.get('exclusive_minimum', False)
                                  or mapping.get('exclusive_maximum', False)):
                self.verdict.add('empty-exclusive-range', place)
        if name in ('string', 'path') and 'pattern' in mapping:
            self.pattern(mapping['pattern'], place + ['pattern'])
        if name in DIRECTIVES and 'format' in mapping:
            problem = format_problem(name, mapping['format'])
            if problem == 'empty' and name == 'datetime' or (
                    mapping['format'] and not mapping['format'].strip(
                        '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')):
                self.verdict.maybe('empty-datetime-format', place)
            elif problem is not None:
                self.verdict.add(
                    'format-' + problem.split()[0], place + ['format'])
        if name == 'array' and 'minimum_size' in mapping \
                and 'maximum_size' in mapping:
            if mapping['minimum_size'] > mapping['maximum_size']:
                self.verdict.add('empty-sizes', place + ['minimum_size'])

    def registries(self):
        """Check that the registries are distinct from all the others."""
        mapping = self.mapping
        taken = {}
        classes = mapping.get('classes')
        if not isinstance(classes, list):
            return
        for i, cls in enumerate(classes):
            if not isinstance(cls, dict):
                continue
            name = cls.get('plural')
            if 'plural' not in cls:
                name = cls.get('name')
                if not isinstance(name, str) or not ascii_match(
                        COMPOSITE_NAME, name):
                    continue
                name = model.plural(name)
            if not isinstance(name, str):
                continue
            key = name.lower()
            if key in taken:
                self.verdict.add('duplicate-registry',
                                 ['classes', i])
            taken[key] = i
        props = mapping.get('properties')
        if not isinstance(props, dict):
            return
        for name, prop in props.items():
            if not isinstance(prop, dict):
                continue
            if prop.get('json', name) in taken if isinstance(
                    prop.get('json', name), str) else False:
                self.verdict.add('registry-clash', ['properties', name])
            elif name in taken:
                self.verdict.add('registry-clash', ['properties', name])

    def recursion(self, kinds):
        """Check that every embeddable structure has a finite instance."""
        mapping = self.mapping
        edges = {}
        for i, embed in enumerate(
                mapping['embeds'] if isinstance(mapping.get('embeds'), list)
                else []):
            if not isinstance(embed, dict) or not isinstance(
                    embed.get('name'), str) or not isinstance(
                        embed.get('properties'), dict):
                continue
            edges[embed['name']] = (i, [
                prop['type'] for prop in embed['properties'].values()
                if isinstance(prop, dict) and isinstance(
                    prop.get('type'), str)
                and kinds.get(prop['type']) == 'embed'
                and prop.get('optional', False) is not True
            ])
        for name, (i, _) in edges.items():
            seen = set()
            todo = list(edges[name][1])
            while todo:
                other = todo.pop()
                if other in seen:
                    continue
                seen.add(other)
                todo.extend(edges.get(other, (0, []))[1])
            if name in seen:
                self.verdict.add('infinite-embed', ['embeds', i])


def judge(mapping):
    """Judge the schema given with ordered keys."""
    return Judge(mapping).judge()
