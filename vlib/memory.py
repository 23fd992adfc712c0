"""
Expected content of the parsed graphs in memory, and its dump in Python.

The expected dump is expressed over the names in the schema; leaves are
plain JSON values or instances of the classes below which know how the
languages represent them.
"""
import collections
import datetime
import fractions
import pathlib
import re
import typing

from vlib import model

OD = collections.OrderedDict


def fields_of(fmt, text):
    """
    Read the date/time strictly and independently of strptime.

    :return: mapping of the determined fields of year, month, day, hour,
        minute and second; None if the text does not have the form
    """
    pattern = []
    groups = []
    for tkn in model.split_format(fmt):
        if tkn == '%%':
            pattern.append('%')
        elif tkn.startswith('%') and len(tkn) == 2:
            group = 'g{}'.format(len(groups))
            groups.append((group, tkn[1]))
            pattern.append(
                model._STRICT[tkn[1]].format(group))  # pylint: disable=W0212
        else:
            pattern.append(re.escape(tkn))
    mtch = re.match('(?s:' + ''.join(pattern) + r')\Z', text)
    if mtch is None:
        return None
    got = {directive: mtch.group(group) for group, directive in groups}
    result = {}
    for key, name in (('Y', 'year'), ('m', 'month'), ('d', 'day'),
                      ('e', 'day'), ('H', 'hour'), ('M', 'minute'),
                      ('S', 'second')):
        if key in got:
            result[name] = int(got[key])
    if 'y' in got and 'Y' not in got:
        year = int(got['y'])
        result['year'] = year + (1900 if year >= 69 else 2000)
    for key in ('b', 'B'):
        if key in got:
            result['month'] = [name[:len(got[key])]
                               for name in model.MONTHS].index(got[key]) + 1
            if key == 'B':
                result['month'] = model.MONTHS.index(got[key]) + 1
    for key in ('I', 'l'):
        if key in got and 'hour' not in result:
            meridian = (got.get('p') or got.get('P') or '').lower()
            if meridian:
                result['hour'] = int(got[key]) % 12 + (
                    12 if meridian == 'pm' else 0)
    return result


class Leaf:
    """Represent an expected leaf."""

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        return '{}({!r})'.format(self.kind, self.value)


def expected(schema, lang, doc):
    """Give the expected dump of the graph."""
    settings = schema.mapping.get(lang, {})

    def properties(comp, value):
        result = OD()
        for prop in comp.props:
            item = value.get(prop.json)
            if item is None:
                result[prop.name] = None
            else:
                result[prop.name] = convert(prop.type, item)
        return result

    def convert(a_type, value):
        name = a_type['type']
        if name == 'array':
            return [convert(a_type['values'], item) for item in value]
        if name == 'map':
            return OD((key, convert(a_type['values'], item))
                      for key, item in value.items())
        if name in ('date', 'time', 'datetime'):
            fmt = a_type.get('format', model.DEFAULT_FORMATS[name])
            return Leaf(name, fields_of(fmt, value))
        if name == 'duration':
            return Leaf('duration', value)
        if name == 'path':
            if settings.get('path_as') == 'pathlib.Path':
                return str(pathlib.PurePosixPath(value))
            return value
        if name in schema.embeds:
            return properties(schema.embeds[name], value)
        if name == 'integer':
            return Leaf('integer', value)
        if name == 'float':
            return Leaf('float', value)
        return value

    result = properties(schema.graph, doc)
    registries = OD()
    for cls in schema.classes.values():
        registries[cls.name] = OD(
            (an_id, OD([('<id>', an_id)], **properties(cls, value)))
            for an_id, value in doc.get(cls.registry, {}).items())
    return {'graph': result, 'registries': registries}


FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')


def leaf_differs(leaf, got, lang):
    """Compare the leaf with the observed one; give the difference."""
    # pylint: disable=too-many-return-statements,too-many-branches
    bad = 'expected {!r}, got {!r}'.format(leaf, got)
    if leaf.kind == 'integer':
        if isinstance(got, bool) or not isinstance(got, int):
            if lang == 'py' or not (isinstance(got, float)
                                    and got == int(got)):
                return bad
        return None if got == leaf.value else bad
    if leaf.kind == 'float':
        if isinstance(got, bool) or not isinstance(got, (int, float)):
            return bad
        return None if got == leaf.value else bad
    if leaf.kind == 'duration':
        if not isinstance(got, dict) or 'ns' not in got:
            return bad
        exact = model.Duration(leaf.value, lang)
        return None if exact.close_to(
            fractions.Fraction(got['ns'], 10**9)) else bad
    # date/time
    if not isinstance(got, dict):
        return bad
    observed = {}
    if 'tm' in got:
        observed = dict(zip(FIELDS, got['tm']))
    elif 'days' in got:
        day = datetime.date(1970, 1, 1) + datetime.timedelta(got['days'])
        observed = {'year': day.year, 'month': day.month, 'day': day.day}
    elif 'epoch' in got:
        moment = datetime.datetime(1970, 1, 1) + datetime.timedelta(
            seconds=got['epoch'])
        observed = {field: getattr(moment, field) for field in FIELDS}
    elif 'secs' in got:
        observed = {
            'hour': got['secs'] // 3600, 'minute': got['secs'] // 60 % 60,
            'second': got['secs'] % 60
        }
    for field, value in (leaf.value or {}).items():
        if observed.get(field) != value:
            return '{}: {}'.format(field, bad)
    kinds = {'date': FIELDS[:3], 'time': FIELDS[3:], 'datetime': FIELDS}
    for field in kinds[leaf.kind]:
        if field not in observed:
            return 'no {}: {}'.format(field, bad)
    return None


def differs(exp, got, lang, path=''):
    """Compare the dumps; give the first difference."""
    # pylint: disable=too-many-return-statements
    if isinstance(exp, Leaf):
        diff = leaf_differs(exp, got, lang)
        return diff and '{}: {}'.format(path, diff)
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(exp) != set(got):
            return '{}: expected {!r}, got {!r}'.format(
                path, sorted(exp), sorted(got) if isinstance(got, dict)
                else got)
        for key in exp:
            diff = differs(exp[key], got[key], lang,
                           '{}/{}'.format(path, key))
            if diff:
                return diff
        return None
    if isinstance(exp, list):
        if not isinstance(got, list) or len(exp) != len(got):
            return '{}: expected {!r}, got {!r}'.format(path, exp, got)
        for i, (left, right) in enumerate(zip(exp, got)):
            diff = differs(left, right, lang, '{}/{}'.format(path, i))
            if diff:
                return diff
        return None
    if type(exp) is not type(got) or exp != got:
        return '{}: expected {!r}, got {!r}'.format(path, exp, got)
    return None


# -- conversion of the dumps ------------------------------------------------
def from_cpp(schema, dump):
    """Convert the dump of the C++ driver."""

    def instance(an_id, value):
        return dict(value, **{'<id>': an_id})

    graph = dict(dump)
    registries = {}
    for cls in schema.classes.values():
        registries[cls.name] = {
            an_id: instance(an_id, value)
            for an_id, value in (graph.pop('registry ' + cls.name)
                                 or {}).items()
        }
    return {'graph': graph, 'registries': registries}


def from_go(schema, dump):
    """Convert the dump of the Go driver."""

    def convert(a_type, value):
        if value is None:
            return None
        name = a_type['type']
        if name == 'array':
            return [convert(a_type['values'], item) for item in value]
        if name == 'map':
            return {key: convert(a_type['values'], item)
                    for key, item in value.items()}
        if name in schema.embeds:
            return properties(schema.embeds[name], value)
        if name == 'duration':
            return {'ns': value}
        if name in ('date', 'time', 'datetime'):
            mtch = re.match(
                r'^(-?\d+)-(\d+)-(\d+)T(\d+):(\d+):(\d+)(\.\d+)?$', value)
            if mtch is None or mtch.group(7):
                return value
            return {'tm': [int(part) for part in mtch.groups()[:6]]}
        return value

    def properties(comp, value, is_class=False):
        value = dict(value)
        result = {}
        if is_class:
            result['<id>'] = value.pop('ID')
        for prop in comp.props:
            result[prop.name] = convert(prop.type,
                                        value.pop(model.ucamel(prop.name)))
        for rest in value:
            result['unexpected ' + rest] = value[rest]
        return result

    dump = dict(dump)
    registries = {}
    for cls in schema.classes.values():
        registries[cls.name] = {
            an_id: properties(cls, value, True)
            for an_id, value in (dump.pop(model.ucamel(cls.plural))
                                 or {}).items()
        }
    return {'graph': properties(schema.graph, dump), 'registries': registries}


def conforms(value, hint):
    """Check the value against the annotation."""
    # pylint: disable=too-many-return-statements
    if hint is typing.Any:
        return True
    if hint is None or hint is type(None):
        return value is None
    origin = getattr(hint, '__origin__', None)
    args = getattr(hint, '__args__', None) or ()
    if origin is typing.Union:
        return any(conforms(value, arg) for arg in args)
    if origin is None:
        if hint is float:
            return isinstance(value, (float, int))
        return isinstance(value, hint)
    if not isinstance(value, origin):
        return False
    if isinstance(value, collections.abc.Mapping) and len(args) == 2:
        return all(conforms(key, args[0]) and conforms(item, args[1])
                   for key, item in value.items())
    if isinstance(value, (list, tuple)) and len(args) == 1:
        return all(conforms(item, args[0]) for item in value)
    return True


class PyDump:
    """Dump a graph in Python, checking the identity of the references."""

    def __init__(self, schema, module):
        self.schema = schema
        self.base = module.base
        self.settings = schema.mapping['py']
        self.complaints = []
        self.refs = 0
        self.registered = {}
        self.hints = {}

    def complain(self, text):
        """Remember a problem."""
        if len(self.complaints) < 5:
            self.complaints.append(text)

    def dump(self, graph):
        """Dump the graph."""
        schema = self.schema
        if type(graph) is not getattr(self.base,
                                      model.ucamel(schema.graph.name)):
            self.complain('the graph is a {!r}'.format(type(graph)))
        for cls in schema.classes.values():
            registry = getattr(graph, cls.registry)
            if not isinstance(registry, collections.abc.Mapping):
                self.complain('the registry {} is a {!r}'.format(
                    cls.registry, type(registry)))
            self.registered[cls.name] = registry
        registries = {}
        for cls in schema.classes.values():
            registries[cls.name] = {}
            for an_id, instance in self.registered[cls.name].items():
                path = '{}[{!r}]'.format(cls.registry, an_id)
                if type(instance) is not getattr(self.base,
                                                 model.ucamel(cls.name)):
                    self.complain('{} is a {!r}'.format(path, type(instance)))
                if instance.id != an_id:
                    self.complain('{} has the id {!r}'.format(
                        path, instance.id))
                got = self.properties(cls, instance, path)
                got['<id>'] = instance.id
                registries[cls.name][an_id] = got
        result = self.properties(schema.graph, graph, '')
        return {'graph': result, 'registries': registries}

    def properties(self, comp, value, path):
        """Dump the properties."""
        result = {}
        self.annotations(value, path)
        known = {'id'} if comp.kind == 'class' else set()
        if comp is self.schema.graph:
            known |= {cls.registry for cls in self.schema.classes.values()}
        for prop in comp.props:
            attr = prop.name.lower()
            known.add(attr)
            item = getattr(value, attr)
            result[prop.name] = None if item is None else self.value(
                prop.type, item, '{}.{}'.format(path, attr))
            if item is None and not prop.optional:
                self.complain('{}.{} is None'.format(path, attr))
        extra = set(vars(value)) - known
        if extra:
            self.complain('{} has other attributes {!r}'.format(path, extra))
        return result

    def annotations(self, value, path):
        """Check the attributes against the annotations of the arguments."""
        init = vars(type(value)).get('__init__')
        if init is None:
            return
        if init not in self.hints:
            self.hints[init] = typing.get_type_hints(
                init, vars(self.base), {})
        for attr, hint in self.hints[init].items():
            if attr != 'return' and not conforms(getattr(value, attr), hint):
                self.complain('{}.{} is annotated as {!r}, but holds {!r}'
                              .format(path, attr, hint, getattr(value, attr)))

    def value(self, a_type, value, path):
        """Dump a value."""
        # pylint: disable=too-many-return-statements,too-many-branches
        name = a_type['type']
        classes = {
            'boolean': bool, 'integer': int, 'string': str,
            'duration': datetime.timedelta, 'date': datetime.date,
            'time': datetime.time, 'datetime': datetime.datetime,
            'array': list
        }
        if name == 'path':
            cls = str if self.settings['path_as'] == 'str' else pathlib.Path
        elif name == 'map':
            cls = collections.abc.MutableMapping
        elif name == 'float':
            cls = (float, int)
        elif name == 'time_zone':
            cls = (str if self.settings['timezone_as'] == 'str' else
                   datetime.tzinfo)
        elif name in self.schema.classes or name in self.schema.embeds:
            cls = getattr(self.base, model.ucamel(name))
        else:
            cls = classes[name]
        exact = name in ('boolean', 'integer', 'date', 'time', 'datetime')
        if not isinstance(value, cls) or (exact and type(value) is not cls):
            self.complain('{} is a {!r}, expected {!r}'.format(
                path, type(value), cls))
            return repr(value)
        if name == 'array':
            return [self.value(a_type['values'], item,
                               '{}[{}]'.format(path, i))
                    for i, item in enumerate(value)]
        if name == 'map':
            return {key: self.value(a_type['values'], item,
                                    '{}[{!r}]'.format(path, key))
                    for key, item in value.items()}
        if name == 'duration':
            return {'ns': (value // datetime.timedelta(microseconds=1)) * 1000}
        if name == 'date':
            return {'tm': [value.year, value.month, value.day]}
        if name == 'datetime':
            return {'tm': [getattr(value, field) for field in FIELDS]}
        if name == 'time':
            return {'secs': value.hour * 3600 + value.minute * 60
                    + value.second}
        if name in ('path', 'time_zone'):
            return str(value)
        if name in self.schema.classes:
            self.refs += 1
            registered = self.registered[name].get(value.id)
            if registered is not value:
                self.complain('{} is not the registered instance {!r}'.format(
                    path, value.id))
            return value.id
        if name in self.schema.embeds:
            return self.properties(self.schema.embeds[name], value, path)
        return value
