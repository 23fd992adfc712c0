"""Generate documents for a schema: valid, faulty and hostile ones."""
import collections
import copy
import datetime
import fractions

from vlib import model, schemagen

OD = collections.OrderedDict

PLAIN_TEXTS = [
    '', 'a', 'some text', ' lead', 'trail ', 'with "quotes"', "it's",
    'back\\slash', '{brace} {0} {}', '%d %s %', 'a/b', '\u00fcml\u00e4ut',
    '\u6f22\u5b57', '\U0001f600', 'tab\t', 'new\nline', '\r\n', '\u2028',
    'null', '0', 'x' * 300, '<tag>&amp;', '`', '$', '//', '\x01\x1f', '\x7f'
]
IDS = [
    'a', 'b', 'id-1', 'some id', 'a/b', '{x}', '"q"', "it's", '%d', '\\', '',
    '\u00fc', '0', 'null', 'with\ttab', 'A' * 40, 'ref', '..', '#', '~1',
    'new\nline'
]


class Docs:
    """Generate documents."""

    def __init__(self, rng, schema, lang):
        self.rng = rng
        self.schema = schema
        self.lang = lang
        self.settings = schema.mapping.get(lang, {})
        self.ids = {}
        self.budget = 0

    # -- valid --------------------------------------------------------------
    def text_for(self, pattern):
        """Generate a text matching the pattern."""
        rng = self.rng
        if pattern is None:
            if rng.random() < 0.3:
                return ''.join(
                    chr(rng.choice([rng.randint(32, 126),
                                    rng.randint(0xa1, 0x24f)]))
                    for _ in range(rng.randint(0, 12)))
            return rng.choice(PLAIN_TEXTS)
        return rng.choice(schemagen.samples(pattern)[0])

    def moment(self, fmt):
        """Generate a date/time."""
        rng = self.rng
        low, high = 1000, 9999
        if '%y' in fmt and '%Y' not in fmt:
            low, high = 1969, 2068
        kind = rng.randrange(6)
        year = rng.choice([low, high, 1970, 2000, 2019, 2024
                           ]) if kind < 3 else rng.randint(low, high)
        month = rng.choice([1, 2, 12, rng.randint(1, 12)])
        day = rng.choice([1, 9, 10, 28, rng.randint(1, 28)])
        if kind == 4:
            month, day = rng.choice([(1, 31), (12, 31), (4, 30), (10, 31)])
        if kind == 5 and year % 4 == 0 and (year % 100 or year % 400 == 0):
            month, day = 2, 29
        hour = rng.choice([0, 1, 9, 10, 11, 12, 13, 23, rng.randint(0, 23)])
        return datetime.datetime(year, month, day, hour,
                                 rng.choice([0, 7, 59, rng.randint(0, 59)]),
                                 rng.choice([0, 7, 59, rng.randint(0, 59)]))

    def duration(self):
        """Generate a duration."""
        rng = self.rng
        while True:
            text = rng.choice(['', '', '', '-', '+']) + 'P'
            kind = rng.randrange(5)
            allow_fraction = rng.random() < 0.3

            def number(maximum, digits=None):
                value = str(rng.choice([0, 1, maximum,
                                        rng.randint(0, maximum)]))
                if digits is not None and allow_fraction:
                    value += '.' + ''.join(
                        rng.choice('0123456789') for _ in range(digits))
                return value

            if kind in (0, 4):
                for unit, maximum in (('Y', 20), ('M', 11), ('W', 4)):
                    if rng.random() < 0.3:
                        text += number(maximum, rng.randint(1, 3)) + unit
            if rng.random() < 0.5:
                text += number(rng.choice([6, 400, 20000]),
                               rng.randint(1, 3)) + 'D'
            clock = ''
            if kind != 1:
                if rng.random() < 0.5:
                    clock += number(rng.choice([23, 1000]),
                                    rng.randint(1, 3)) + 'H'
                if rng.random() < 0.5:
                    clock += number(rng.choice([59, 1000]),
                                    rng.randint(1, 3)) + 'M'
                if rng.random() < 0.6:
                    clock += str(
                        rng.choice([0, 1, 59, 60, 3600, rng.randint(0, 100)]))
                    if rng.random() < 0.6:
                        digits = rng.randint(
                            1, model.DURATION_DIGITS[self.lang])
                        clock += '.' + ''.join(
                            rng.choice('0123456789') for _ in range(digits))
                    clock += 'S'
            if clock or rng.random() < 0.05:
                text += 'T' + clock
            secs, _ = model.duration_seconds(text)
            if abs(secs) < fractions.Fraction(2**62, 10**9):
                return text

    def integer(self, mapping):
        """Generate an integer within the bounds."""
        rng = self.rng
        limit = 2**53
        if self.lang == 'cpp':
            limit = 2**63
        if self.lang == 'py':
            limit = 2**80
        low = mapping.get('minimum')
        high = mapping.get('maximum')
        if low is not None and mapping.get('exclusive_minimum'):
            low += 1
        if high is not None and mapping.get('exclusive_maximum'):
            high -= 1
        if low is None and high is None:
            return rng.choice([
                0, 1, -1, 17, 2**31, -2**31 - 1, 2**53 - 1, -2**53, limit - 1,
                -limit, rng.randint(-10**6, 10**6), rng.randint(
                    -2**53, 2**53)
            ])
        if low is None:
            low = max(-limit, high - 10**6)
        if high is None:
            high = min(limit - 1, low + 10**6)
        return rng.choice([low, high, rng.randint(low, high),
                           rng.randint(low, high)])

    def float(self, mapping):
        """Generate a float within the bounds."""
        rng = self.rng
        low = mapping.get('minimum')
        high = mapping.get('maximum')
        candidates = []
        if low is None and high is None:
            return rng.choice([
                0.0, 1.5, -2.25, 1e300, -1e-300, 0.1, 1 / 3, 3, -7, 5e-324,
                1.7976931348623157e308, rng.uniform(-1e6, 1e6),
                rng.uniform(-1, 1), 123456789.123456789
            ])
        if low is None:
            low = high - 1000
        elif not mapping.get('exclusive_minimum'):
            candidates.append(low)
        if high is None:
            high = low + 1000
        elif not mapping.get('exclusive_maximum'):
            candidates.append(high)
        inside = low + (high - low) * rng.choice(
            [0.5, 1e-9, 1 - 1e-9, rng.random() * 0.98 + 0.01])
        if not low < inside < high:
            inside = low + (high - low) * 0.5
        candidates.append(inside)
        return rng.choice(candidates)

    def value(self, mapping, depth=0):
        """Generate a valid value."""
        # pylint: disable=too-many-return-statements,too-many-branches
        rng = self.rng
        name = mapping['type']
        self.budget -= 1
        if name == 'boolean':
            return rng.random() < 0.5
        if name == 'integer':
            return self.integer(mapping)
        if name == 'float':
            return self.float(mapping)
        if name == 'string':
            return self.text_for(mapping.get('pattern'))
        if name == 'path':
            if mapping.get('pattern') is not None:
                return rng.choice(
                    schemagen.stable_paths(mapping['pattern']))
            return rng.choice([
                '/a/b', 'a', 'a/b.txt', '../x', '/', '.', 'a//b', 'a/./b/',
                'with space/\u00fc', '~/x', 'C:\\x\\y', '/a/../b', ''
            ])
        if name in ('date', 'time', 'datetime'):
            fmt = mapping.get('format', model.DEFAULT_FORMATS[name])
            return model.format_dt(fmt, self.moment(fmt))
        if name == 'time_zone':
            if (self.lang == 'py' and self.settings.get('timezone_as') == 'str'
                ) and rng.random() < 0.3:
                return rng.choice(PLAIN_TEXTS)
            return rng.choice(model.KNOWN_ZONES)
        if name == 'duration':
            return self.duration()
        if name == 'array':
            low = mapping.get('minimum_size', 0)
            high = mapping.get('maximum_size')
            if high is None:
                high = max(low, 3)
            if self.budget < 0:
                high = low
            if mapping.get('maximum_size') is None and depth == 0 and (
                    rng.random() < 0.05):
                high = low + rng.choice([9, 10, 11, 17])
            size = rng.choice([low, high, rng.randint(low, high)])
            if size > low + 20 and self.budget < 100:
                size = low + rng.randint(0, 20)
            return [self.value(mapping['values'], depth + 1)
                    for _ in range(size)]
        if name == 'map':
            size = 0 if self.budget < 0 else rng.choice([0, 1, 2, 3])
            if size and depth == 0 and rng.random() < 0.03:
                size = rng.choice([9, 11, 16])
            keys = rng.sample(IDS, size)
            return OD((key, self.value(mapping['values'], depth + 1))
                      for key in keys)
        if name in self.schema.classes:
            return rng.choice(self.ids[name])
        return self.composite(self.schema.embeds[name], depth + 1)

    def composite(self, comp, depth=0, shuffle=True):
        """Generate the properties of a composite."""
        rng = self.rng
        while True:
            density = rng.choice([0.0, 0.5, 0.5, 1.0])
            items = []
            for prop in comp.props:
                if prop.optional and rng.random() >= density:
                    if self.lang == 'py' and rng.random() < 0.1:
                        items.append((prop.json, None))
                    continue
                items.append((prop.json, self.value(prop.type, depth)))
            if self.lang == 'cpp' and comp.props and not items:
                continue
            break
        if shuffle and rng.random() < 0.4:
            rng.shuffle(items)
        return OD(items)

    def needed(self):
        """
        List the classes which must have instances.

        These are all the referenced ones, so that values can always be
        generated.
        """
        result = set()
        for _, _, mapping in self.schema.all_types():
            if mapping['type'] in self.schema.classes:
                result.add(mapping['type'])
        return result

    def valid(self, max_ids=4):
        """Generate a valid document."""
        rng = self.rng
        self.budget = 150
        if max_ids == 4 and rng.random() < 0.04:
            max_ids = 12
        needed = self.needed()
        self.ids = {}
        for cls in self.schema.classes.values():
            if cls.id_pattern is not None:
                pool = schemagen.samples(cls.id_pattern)[0]
            else:
                pool = IDS
            low = 1 if cls.name in needed else 0
            size = rng.randint(low, max(low, min(max_ids, len(pool))))
            self.ids[cls.name] = rng.sample(pool, size)
        parts = []
        for cls in self.schema.classes.values():
            if not self.ids[cls.name] and rng.random() < 0.6:
                continue
            parts.append((cls.registry, OD(
                (an_id, self.composite(cls)) for an_id in self.ids[cls.name])))
        parts.extend(self.composite(self.schema.graph, shuffle=False).items())
        if rng.random() < 0.5:
            rng.shuffle(parts)
        return OD(parts)

    def with_unknown(self, doc):
        """Add unknown keys which have to be ignored."""
        doc = copy.deepcopy(doc)
        doc['unknown key {}%'] = [1, {'x': None}]
        doc['zz_unknown'] = None
        for cls in self.schema.classes.values():
            for value in doc.get(cls.registry, {}).values():
                if self.rng.random() < 0.5:
                    value['zz_unknown'] = self.rng.choice([None, 1, 'x', {}])
        return doc

    # -- faulty -------------------------------------------------------------
    def sites(self, doc):
        """List (container, key, type mapping) of all the typed values."""
        result = []

        def rec(container, key, mapping):
            result.append((container, key, mapping))
            value = container[key]
            name = mapping['type']
            if name == 'array' and isinstance(value, list):
                for i in range(len(value)):
                    rec(value, i, mapping['values'])
            elif name == 'map' and isinstance(value, dict):
                for sub in value:
                    rec(value, sub, mapping['values'])
            elif name in self.schema.embeds and isinstance(value, dict):
                comp(self.schema.embeds[name], value)

        def comp(a_comp, value):
            for prop in a_comp.props:
                if prop.json in value and value[prop.json] is not None:
                    rec(value, prop.json, prop.type)

        comp(self.schema.graph, doc)
        for cls in self.schema.classes.values():
            registry = doc.get(cls.registry, {})
            if isinstance(registry, dict):
                for value in registry.values():
                    if isinstance(value, dict):
                        comp(cls, value)
        return result

    def composite_sites(self, doc):
        """List (container, key, composite) of all the composites."""
        result = []
        for cls in self.schema.classes.values():
            registry = doc.get(cls.registry, {})
            if isinstance(registry, dict):
                for an_id, value in registry.items():
                    if isinstance(value, dict):
                        result.append((registry, an_id, cls))
        for container, key, mapping in self.sites(doc):
            if mapping['type'] in self.schema.embeds and isinstance(
                    container[key], dict):
                result.append(
                    (container, key, self.schema.embeds[mapping['type']]))
        return result

    def wrong_type(self, mapping):
        """Give a value of a wrong type."""
        rng = self.rng
        pool = [True, False, 7, -1, 2.5, 'text', [], [1], OD(), OD(a=1),
                None, 'true', '1', 0]
        return copy.deepcopy(rng.choice(pool))

    def bad_value(self, mapping, old):
        """Give a value of the right type breaking the constraint."""
        # pylint: disable=too-many-return-statements,too-many-branches
        rng = self.rng
        name = mapping['type']
        if name in ('integer', 'float'):
            options = []
            step = 1 if name == 'integer' else rng.choice([1, 0.25, 1e-9])
            if 'minimum' in mapping:
                options.append(mapping['minimum'] - step)
                if mapping.get('exclusive_minimum'):
                    options.append(mapping['minimum'])
            if 'maximum' in mapping:
                options.append(mapping['maximum'] + step)
                if mapping.get('exclusive_maximum'):
                    options.append(mapping['maximum'])
            if name == 'integer':
                options.append(0.5)
                options.append(rng.randint(-5, 5) + 0.25)
            return rng.choice(options) if options else self.wrong_type(mapping)
        if name in ('string', 'path'):
            if mapping.get('pattern') is not None:
                return rng.choice(
                    schemagen.samples(mapping['pattern'])[1])
            return self.wrong_type(mapping)
        if name in ('date', 'time', 'datetime'):
            fmt = mapping.get('format', model.DEFAULT_FORMATS[name])
            good = model.format_dt(fmt, self.moment(fmt))
            kind = rng.randrange(3)
            if kind == 0:
                return rng.choice(['', 'nonsense', '???'])
            # break a field
            tokens = model.split_format(fmt)
            fields = [
                i for i, tkn in enumerate(tokens)
                if len(tkn) == 2 and tkn[1] in 'dmHIMbB'
            ]
            if not fields:
                return ''
            idx = rng.choice(fields)
            repl = {
                'd': ['00', '32', '99'], 'm': ['00', '13', '99'],
                'H': ['24', '99'], 'I': ['00', '13'], 'M': ['60', '99'],
                'b': ['Foo'], 'B': ['Foobar']
            }[tokens[idx][1]]
            broken = list(tokens)
            moment = self.moment(fmt)
            out = []
            for i, tkn in enumerate(broken):
                out.append(rng.choice(repl) if i == idx else model.format_dt(
                    tkn, moment))
            return ''.join(out) if out else good
        if name == 'time_zone':
            return rng.choice(['Europe/Nowhere', 'Asia/Nowhereland',
                               'Not/A_zone', '!!'])
        if name == 'duration':
            return rng.choice([
                '', 'P1', '1D', 'PT1D', 'P1H', 'p1d', 'P-1D', 'P1D1Y',
                'P01D', 'PT1.S', 'PT.5S', 'P1,5D', ' P1D', 'P1D ', 'PD',
                'P1S', 'PT1Y', 'P1DT1H1', '--P1D', 'PT1.1234567890S',
                'PT1.' + '1' * 12 + 'S', 'nonsense'
            ])
        if name == 'array':
            options = []
            if mapping.get('minimum_size', 0) > 0 and isinstance(
                    old, list) and old:
                options.append(old[:mapping['minimum_size'] - 1])
            if 'maximum_size' in mapping:
                options.append(
                    [self.value(mapping['values'])
                     for _ in range(mapping['maximum_size'] + 1)])
            if options:
                return rng.choice(options)
            return self.wrong_type(mapping)
        if name in self.schema.classes:
            others = [
                an_id for key, ids in self.ids.items() if key != name
                for an_id in ids
            ]
            return rng.choice(['dangling', 'A', '', ' '] + others)
        return self.wrong_type(mapping)

    def mutate(self, doc, faults=1):
        """
        Inject faults in the valid document.

        Whether the result is invalid is decided by the model.
        """
        # pylint: disable=too-many-branches
        rng = self.rng
        doc = copy.deepcopy(doc)
        for _ in range(faults):
            kind = rng.random()
            if kind < 0.03 and self.schema.classes:
                cls = rng.choice(list(self.schema.classes.values()))
                doc[cls.registry] = rng.choice([[], 'x', 3, True, [1]])
                continue
            if kind < 0.10 and self.schema.classes:
                cls = rng.choice(list(self.schema.classes.values()))
                registry = doc.get(cls.registry)
                if isinstance(registry, dict):
                    if cls.id_pattern is not None and registry:
                        bad = rng.choice(
                            schemagen.samples(cls.id_pattern)[1])
                        registry[bad] = copy.deepcopy(
                            rng.choice(list(registry.values())))
                    elif registry:
                        del registry[rng.choice(list(registry))]
                continue
            if kind < 0.16:
                sites = self.composite_sites(doc)
                if sites:
                    container, key, _ = rng.choice(sites)
                    container[key] = rng.choice([[], 'x', 3, True, [{}]])
                continue
            if kind < 0.34:
                comps = [(doc, comp) for comp in [self.schema.graph]]
                comps += [(container[key], comp) for container, key, comp in
                          self.composite_sites(doc)]
                value, comp = rng.choice(comps)
                present = [prop.json for prop in comp.props
                           if prop.json in value]
                if present:
                    del value[rng.choice(present)]
                continue
            sites = self.sites(doc)
            if not sites:
                continue
            container, key, mapping = rng.choice(sites)
            if kind < 0.62:
                container[key] = self.wrong_type(mapping)
            else:
                container[key] = self.bad_value(mapping, container[key])
        return doc

    # -- hostile ------------------------------------------------------------
    def hostile_text(self):
        """Give a text which is hard on some parser."""
        rng = self.rng
        kind = rng.randrange(6)
        if kind == 0:
            # durations with extreme numbers
            number = rng.choice(['9' * 5, '9' * 11, '9' * 19, '9' * 25,
                                 '9' * 320, '0', '0.' + '0' * 30 + '1',
                                 '1.' + '9' * 25, '1.' + '9' * 330,
                                 '2562047', '9223372036', '9223372037'])
            unit = rng.choice(['Y', 'M', 'W', 'D', 'TH', 'TM', 'TS'])
            return '{}P{}{}{}'.format(rng.choice(['', '-', '+']),
                                      'T' if unit[0] == 'T' else '', number,
                                      unit[-1])
        if kind == 1:
            # date/times with mangled fields
            name = rng.choice(['date', 'time', 'datetime'])
            formats = [mapping.get('format', model.DEFAULT_FORMATS[name])
                       for _, _, mapping in self.schema.all_types()
                       if mapping['type'] == name]
            fmt = rng.choice(formats or [model.DEFAULT_FORMATS[name]])
            text = list(model.format_dt(fmt, self.moment(fmt)))
            for _ in range(rng.randint(1, 3)):
                pos = rng.randrange(len(text) + 1)
                op = rng.randrange(3)
                piece = rng.choice(list('0919-+:. TZ%e') + ['\x00', '\u0661',
                                                            '99', '\n'])
                if op == 0:
                    text.insert(pos, piece)
                elif pos < len(text):
                    if op == 1:
                        text[pos] = piece
                    else:
                        del text[pos]
            return ''.join(text)
        if kind == 2:
            return rng.choice([
                '', 'UTC', 'Local', '../../etc/passwd', '/etc/localtime',
                'Europe', 'Europe/', '\x00', 'europe/zurich', '\u00fc',
                'Etc/GMT+14', '+01:00', 'posixrules', 'zone.tab', '.'
            ])
        if kind == 3:
            return rng.choice(IDS)
        return rng.choice(PLAIN_TEXTS + [
            'P1Y', '2019-01-01', '25:61:61', 'PT' + '9' * 12 + 'S',
            'Europe/Zurich', '2019-01-01T00:00:00Z', '0000-00-00',
            '2019-02-30', '9999-12-31', '00:00:60', '24:00:00'
        ])

    def junk(self, depth=0):
        """Give an arbitrary JSON value."""
        rng = self.rng
        kind = rng.randrange(9 if depth < 4 else 6)
        if kind == 0:
            return None
        if kind == 1:
            return rng.random() < 0.5
        if kind == 2:
            pool = [0, -1, 2**31, 2**62, -2**63, 2**63 - 1, 2**63,
                    -2**63 - 1, 2**64, rng.randint(-100, 100)]
            if self.lang == 'py':
                pool += [10**400, -10**400]
            return rng.choice(pool)
        if kind == 3:
            return rng.choice([0.0, -0.0, 1e308, -1e-308, 0.5, 9.3e18])
        if kind in (4, 5):
            return self.hostile_text()
        if kind == 6:
            return [self.junk(depth + 1) for _ in range(rng.randint(0, 4))]
        keys = rng.sample(IDS + list(self.all_json()), rng.randint(0, 4))
        return OD((key, self.junk(depth + 1)) for key in keys)

    def all_json(self):
        """Give all the JSON names in the schema."""
        result = set()
        for comp in self.schema.composites():
            result.update(prop.json for prop in comp.props)
        result.update(cls.registry for cls in self.schema.classes.values())
        return sorted(result)

    def hostile(self):
        """Give a hostile document."""
        rng = self.rng
        kind = rng.randrange(5)
        if kind == 0:
            return self.junk()
        doc = self.valid()
        if kind == 1:
            keys = self.all_json()
            return OD((key, self.junk(1)) for key in keys
                      if rng.random() < 0.8)
        for _ in range(rng.randint(1, 4)):
            sites = self.sites(doc) + [
                (container, key, None)
                for container, key, _ in self.composite_sites(doc)
            ]
            sites += [(doc, key, None) for key in list(doc)]
            if not sites:
                break
            container, key, _ = rng.choice(sites)
            container[key] = self.junk(1)
        return doc
