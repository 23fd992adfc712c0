"""Probe the listed findings which need single documents only."""
from vlib import common, cpprun, pyrun

MINIMAL = 'is a probe.'


def mapping_of(lang, properties, **settings):
    """Give a schema with the properties."""
    props = {}
    for name, a_type in properties.items():
        props[name] = {'type': a_type['type'], 'description': MINIMAL}
        props[name].update(a_type)
    result = {'name': 'G', 'description': MINIMAL}
    result[lang] = {
        'py': {'module_name': 'probe', 'path_as': 'str',
               'timezone_as': 'pytz.timezone'},
        'cpp': {'namespace': 'probe', 'path_as': 'std::filesystem::path',
                'optional_as': 'std::optional',
                'datetime_library': 'ctime'}}[lang]
    result[lang].update(settings)
    result['properties'] = props
    return result


def python(check, cases):
    """
    Probe Python.

    :param cases: (key, type, value, function of the observation)
    """
    for key, a_type, value, present in cases:
        mapping = mapping_of('py', {'a': a_type})
        doc = {'a': value}
        with pyrun.PyModule(mapping) as module:
            res = module.from_jsonable(doc)
            out = None
            if res.graph is not None:
                out = module.to_jsonable(res.graph, False)
            seen = {'errors': res.errors, 'out': out,
                    'exception': res.exception}
        check.finding(key, present(seen), '{!r} with {!r}: {!r}'.format(
            a_type, value, seen), {'schema': mapping, 'document': doc})


def cpp(check, cases):
    """
    Probe C++.

    :param cases: (key, library, type, value, function of the observation)
    """
    mappings = []
    for number, (_, library, a_type, _, _) in enumerate(cases):
        if isinstance(a_type, dict) and 'properties' in a_type:
            mapping = dict(a_type)
        else:
            mapping = mapping_of('cpp', {'a': a_type},
                                 datetime_library=library)
        mapping['cpp'] = dict(mapping['cpp'],
                              namespace='probe{}'.format(number))
        mappings.append(mapping)
    with common.scratch() as root:
        with cpprun.CppBatch(mappings, root, 'plain') as batch:
            for idx, err in dict(batch.failures, **batch.build()).items():
                check.violation('no C++ code: {}'.format(err),
                                {'schema': mappings[idx]})
            for idx, (key, _, _, value, present) in enumerate(cases):
                if idx not in batch.sources:
                    continue
                doc = value if 'classes' in mappings[idx] else {'a': value}
                seen = batch.request(idx, doc)
                check.finding(
                    key, bool(present(seen)), '{!r} gives {!r}'.format(
                        doc, {name: seen.get(name) for name in (
                            'errors', 'exception', 'crash', 'out')}),
                    {'schema': mappings[idx], 'document': doc})


def rejected(seen):
    """Check that the document was rejected."""
    return bool(seen['errors'])


def accepted(seen):
    """Check that the document was accepted."""
    return not seen['errors'] and not seen.get('exception')


def p01(check):
    """Probe what breaks the round trip in Python."""
    python(check, [
        ('py-directives', {'type': 'date', 'format': '%e.%m.%Y'},
         ' 3.06.2019', rejected),
        ('py-directives', {'type': 'time', 'format': '%l:%M %p'},
         ' 3:07 PM', rejected),
        ('py-directives', {'type': 'time', 'format': '%I:%M %P'},
         '03:07 pm', rejected),
        ('py-zone-name',
         {'type': 'datetime', 'format': '%Y-%m-%d %H:%M:%S %Z'},
         '2019-06-03 15:07:09 UTC',
         lambda seen: seen['out'] == {'a': '2019-06-03 15:07:09 '}),
    ])


def p04(check):
    """Probe what Python accepts wrongly."""
    python(check, [
        ('py-bool-number', {'type': 'integer'}, True, accepted),
        ('py-bool-number', {'type': 'float'}, False, accepted),
    ])


def p03(check):
    """Probe what breaks the round trip in C++."""
    hollow = mapping_of('cpp', {'b': {'type': 'boolean'}})
    hollow['classes'] = [{
        'name': 'Thing', 'description': MINIMAL,
        'properties': {'x': {'type': 'integer', 'description': MINIMAL,
                             'optional': True}}}]
    cpp(check, [
        ('cpp-null-composite', None, hollow, {'b': True, 'things': {'a': {}}},
         lambda seen: (seen.get('out') or {}).get('things') == {'a': None}),
        ('cpp-directives', 'ctime', {'type': 'time', 'format': '%I:%M %P'},
         '03:07 pm', rejected),
        ('cpp-directives', 'date.h', {'type': 'time', 'format': '%I:%M %P'},
         '03:07 pm', rejected),
        ('cpp-directives', 'date.h', {'type': 'date', 'format': '%e.%m.%Y'},
         ' 3.06.2019', rejected),
        ('cpp-directives', 'date.h', {'type': 'time', 'format': '%l:%M %p'},
         ' 3:07 PM', rejected),
        ('cpp-dateh-meridian', 'date.h',
         {'type': 'time', 'format': '%I:%M %p'}, '03:07 PM',
         lambda seen: (seen.get('out') or {}).get('a') == '03:07 AM'),
        ('cpp-dateh-zone', 'date.h',
         {'type': 'datetime', 'format': '%Y-%m-%dT%H:%M:%S%z'},
         '2019-06-03T15:07:09+0000',
         lambda seen: 'iostream error' in (seen.get('exception') or '')),
        ('cpp-dateh-partial', 'date.h',
         {'type': 'datetime', 'format': '%H:%M'}, '15:07', rejected),
    ])


def p06(check):
    """Probe what C++ accepts wrongly."""
    cpp(check, [
        ('cpp-dateh-trailing', 'date.h',
         {'type': 'date', 'format': '%Y-%m-%d'}, '2019-06-03junk', accepted),
        ('cpp-dateh-trailing', 'date.h',
         {'type': 'time', 'format': '%H:%M:%S'}, '15:07:09junk', accepted),
        ('cpp-ctime-zone', 'ctime',
         {'type': 'datetime', 'format': '%Y-%m-%d %H:%M:%S %Z'},
         '2019-06-03 15:07:09 junk', accepted),
    ])
