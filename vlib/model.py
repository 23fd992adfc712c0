"""
Reference model of mapry, written from its documentation.

It knows nothing of the generators: it reads the schema mapping, judges a
JSON document and says what the serialized document has to be.
"""
import collections
import datetime
import fractions
import pathlib
import re

NONCOMPOSITE = ('boolean', 'integer', 'float', 'string', 'path', 'date',
                'time', 'datetime', 'duration', 'time_zone', 'array', 'map')

PLURALS = {
    'criterion': 'criteria',
    'minimum': 'minima',
    'maximum': 'maxima',
    'matrix': 'matrices',
    'life': 'lives',
    'focus': 'foci'
}


def plural(name):
    """Infer the plural of a class name (documented heuristic)."""
    head, sep, last = name.rpartition('_')
    for single, many in PLURALS.items():
        if last == single:
            return head + sep + many
        if last == single[0].upper() + single[1:]:
            return head + sep + many[0].upper() + many[1:]
    if last.endswith('y') and not last.endswith(
        ('ay', 'ey', 'iy', 'oy', 'uy')):
        return name[:-1] + 'ies'
    if last.endswith(('x', 's')):
        return name + 'es'
    return name + 's'


def ucamel(name):
    """Give the CamelCase of an identifier."""
    return ''.join(part[:1].upper() + part[1:] for part in name.split('_'))


class Grey(Exception):
    """Signal that the documentation leaves the case to the language."""


class Prop:
    """Represent a property."""

    def __init__(self, name, mapping):
        self.name = name
        self.json = mapping.get('json', name)
        self.optional = mapping.get('optional', False)
        self.type = mapping


class Comp:
    """Represent a composite."""

    def __init__(self, mapping, kind):
        self.name = mapping['name']
        self.kind = kind
        self.props = [
            Prop(name, sub) for name, sub in mapping.get('properties',
                                                          {}).items()
        ]
        self.id_pattern = mapping.get('id_pattern')
        self.plural = mapping.get('plural') or (
            plural(self.name) if kind == 'class' else None)

    @property
    def registry(self):
        """Give the JSON name of the registry."""
        return self.plural.lower()


class Schema:
    """Represent a schema."""

    def __init__(self, mapping):
        self.mapping = mapping
        self.graph = Comp(mapping, 'graph')
        self.classes = collections.OrderedDict(
            (sub['name'], Comp(sub, 'class'))
            for sub in mapping.get('classes', []))
        self.embeds = collections.OrderedDict(
            (sub['name'], Comp(sub, 'embed'))
            for sub in mapping.get('embeds', []))

    def composites(self):
        """Iterate over all the composites."""
        yield self.graph
        yield from self.classes.values()
        yield from self.embeds.values()

    def all_types(self):
        """Iterate over (composite, property, type mapping)."""

        def rec(mapping):
            yield mapping
            if mapping['type'] in ('array', 'map'):
                yield from rec(mapping['values'])

        for comp in self.composites():
            for prop in comp.props:
                for mapping in rec(prop.type):
                    yield comp, prop, mapping


DEFAULT_FORMATS = {
    'date': '%Y-%m-%d',
    'time': '%H:%M:%S',
    'datetime': '%Y-%m-%dT%H:%M:%SZ'
}

MONTHS = [
    'January', 'February', 'March', 'April', 'May', 'June', 'July', 'August',
    'September', 'October', 'November', 'December'
]
DAYS = [
    'Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
    'Sunday'
]


def split_format(fmt):
    """Split the format in directives and literals."""
    return re.findall(r'%[a-zA-Z%]|[^%]', fmt, re.DOTALL)


def format_dt(fmt, value):
    """Format the date/time strictly and independently of strftime."""
    out = []
    hour12 = value.hour % 12 or 12
    for tkn in split_format(fmt):
        if not tkn.startswith('%') or len(tkn) == 1:
            out.append(tkn)
            continue
        # yapf: disable
        out.append({
            'a': lambda: DAYS[value.weekday()][:3],
            'A': lambda: DAYS[value.weekday()],
            'b': lambda: MONTHS[value.month - 1][:3],
            'B': lambda: MONTHS[value.month - 1],
            'd': lambda: '{:02d}'.format(value.day),
            'e': lambda: '{:2d}'.format(value.day),
            'm': lambda: '{:02d}'.format(value.month),
            'y': lambda: '{:02d}'.format(value.year % 100),
            'Y': lambda: '{:04d}'.format(value.year),
            'H': lambda: '{:02d}'.format(value.hour),
            'I': lambda: '{:02d}'.format(hour12),
            'l': lambda: str(hour12),
            'M': lambda: '{:02d}'.format(value.minute),
            'P': lambda: 'am' if value.hour < 12 else 'pm',
            'p': lambda: 'AM' if value.hour < 12 else 'PM',
            'S': lambda: '{:02d}'.format(value.second),
            'z': lambda: '+0000',
            'Z': lambda: 'UTC',
            '%': lambda: '%',
        }[tkn[1]]())
        # yapf: enable
    return ''.join(out)


_STRICT = {
    'a': '(?P<{}>' + '|'.join(d[:3] for d in DAYS) + ')',
    'A': '(?P<{}>' + '|'.join(DAYS) + ')',
    'b': '(?P<{}>' + '|'.join(m[:3] for m in MONTHS) + ')',
    'B': '(?P<{}>' + '|'.join(MONTHS) + ')',
    'd': r'(?P<{}>[0-9]{{2}})',
    'e': r'(?P<{}>[ 1-3][0-9])',
    'm': r'(?P<{}>[0-9]{{2}})',
    'y': r'(?P<{}>[0-9]{{2}})',
    'Y': r'(?P<{}>[0-9]{{4}})',
    'H': r'(?P<{}>[0-9]{{2}})',
    'I': r'(?P<{}>[0-9]{{2}})',
    'l': r'(?P<{}>1[0-2]|[1-9])',
    'M': r'(?P<{}>[0-9]{{2}})',
    'P': r'(?P<{}>am|pm)',
    'p': r'(?P<{}>AM|PM)',
    'S': r'(?P<{}>[0-9]{{2}})',
    'z': r'(?P<{}>\+0000)',
    'Z': r'(?P<{}>UTC)',
}


def judge_dt(fmt, text, lang=None):
    """
    Judge the text.

    :return: True if valid, False if clearly invalid
    :raise: Grey if libraries may differ
    """
    pattern = []
    fields = collections.OrderedDict()
    for tkn in split_format(fmt):
        if tkn == '%%':
            pattern.append('%')
        elif tkn.startswith('%') and len(tkn) == 2:
            group = 'g{}'.format(len(fields))
            fields[group] = tkn[1]
            pattern.append(_STRICT[tkn[1]].format(group))
        else:
            pattern.append(re.escape(tkn))
    mtch = re.match('(?s:' + ''.join(pattern) + r')\Z', text)
    if mtch is None:
        # Clearly invalid: no digits nor month/day names where such are needed,
        # or nothing at all.
        if text == '' and fields:
            return False
        if fields and not re.search(r'[0-9]', text) and not re.search(
                r'(?i)' + '|'.join(
                    [d[:3] for d in DAYS] + [m[:3] for m in MONTHS] +
                    ['am', 'pm', 'utc']), text):
            return False
        raise Grey('date/time text {!r} for {!r}'.format(text, fmt))
    # The text has the right form; check the calendar.
    values = {}
    for group, directive in fields.items():
        got = mtch.group(group)
        if directive in values and values[directive] != got:
            raise Grey('repeated directives')
        values[directive] = got
    month = 1
    if 'm' in values:
        month = int(values['m'])
    for key in ('b', 'B'):
        if key in values:
            idx = [m[:len(values[key])] for m in MONTHS].index(values[key]) + 1
            if 'm' in values and idx != month:
                raise Grey('conflicting months')
            month = idx
    if 'b' in values and 'B' in values and values['B'][:3] != values['b']:
        raise Grey('conflicting months')
    if not 1 <= month <= 12:
        return False
    day = 1
    if 'd' in values:
        day = int(values['d'])
    if 'e' in values:
        aday = int(values['e'])
        if 'd' in values and aday != day:
            raise Grey('conflicting days')
        day = aday
    if day < 1 or day > 31:
        return False
    if 'Y' in values:
        year = int(values['Y'])
        if year < 1:
            raise Grey('year zero')
        if 'y' in values and int(values['y']) != year % 100:
            raise Grey('conflicting years')
    elif 'y' in values:
        year = int(values['y'])
        year += 1900 if year >= 69 else 2000
    else:
        year = None
    hour = 0
    if 'H' in values:
        hour = int(values['H'])
        if hour > 23:
            return False
    for key in ('I', 'l'):
        if key in values:
            hour12 = int(values[key])
            if hour12 == 0 and lang == 'go':
                raise Grey('zero on the 12-hour clock in Go')
            if not 1 <= hour12 <= 12:
                return False
            if 'H' in values and (hour % 12 or 12) != hour12:
                raise Grey('conflicting hours')
    for key in ('p', 'P'):
        if key in values:
            if 'H' in values and (values[key].lower() == 'am') != (hour < 12):
                raise Grey('conflicting hours')
            if not ('I' in values or 'l' in values or 'H' in values):
                raise Grey('meridian without an hour')
    if 'M' in values and int(values['M']) > 59:
        return False
    if 'S' in values and int(values['S']) > 59:
        raise Grey('leap second')
    try:
        a_date = datetime.date(year if year is not None else 2000, month, day)
    except ValueError:
        raise Grey('day out of month')
    if year is None and (month, day) == (2, 29):
        raise Grey('Feb 29th without a year')
    if 'a' in values or 'A' in values:
        if year is None or not ('d' in values or 'e' in values) or not (
                'm' in values or 'b' in values or 'B' in values):
            raise Grey('weekday without a date')
        for key in ('a', 'A'):
            if key in values and DAYS[
                    a_date.weekday()][:len(values[key])] != values[key]:
                raise Grey('conflicting weekday')
    return True


_DURATION_RE = re.compile(
    r'(?P<sign>[+-])?P'
    r'(?:(?P<Y>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)Y)?'
    r'(?:(?P<Mo>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)M)?'
    r'(?:(?P<W>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)W)?'
    r'(?:(?P<D>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)D)?'
    r'(?P<T>T'
    r'(?:(?P<H>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)H)?'
    r'(?:(?P<Mi>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)M)?'
    r'(?:(?P<S>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)S)?'
    r')?\Z')

UNIT_SECONDS = {
    'Y': fractions.Fraction('365.2425') * 86400,
    'Mo': fractions.Fraction('30.436875') * 86400,
    'W': fractions.Fraction(7 * 86400),
    'D': fractions.Fraction(86400),
    'H': fractions.Fraction(3600),
    'Mi': fractions.Fraction(60),
    'S': fractions.Fraction(1),
}


def duration_seconds(text):
    """
    Interpret the duration.

    :return: (exact seconds, digits in the fraction of the seconds),
        None if not a duration
    """
    mtch = _DURATION_RE.match(text)
    if mtch is None:
        return None
    total = fractions.Fraction(0)
    for key, unit in UNIT_SECONDS.items():
        if mtch.group(key):
            total += fractions.Fraction(mtch.group(key)) * unit
    if mtch.group('sign') == '-':
        total = -total
    secs = mtch.group('S') or ''
    digits = len(secs.partition('.')[2])
    return total, digits


class Langs:
    """List the languages."""
    PY = 'py'
    GO = 'go'
    CPP = 'cpp'


DURATION_DIGITS = {'py': 6, 'go': 9, 'cpp': 9}

KNOWN_ZONES = [
    'Europe/Zurich', 'America/New_York', 'Asia/Tokyo', 'Africa/Cairo',
    'Australia/Sydney', 'America/Sao_Paulo'
]

ERR = collections.namedtuple('ERR', ['ref', 'code'])


class Judge:
    """Judge documents for a schema as the given language has to."""

    def __init__(self, schema, lang):
        self.schema = schema
        self.lang = lang
        self.settings = schema.mapping.get(lang, {})
        self.errors = []
        self.doc = None

    def judge(self, doc, ref):
        """
        Judge the document.

        :return: list of errors
        :raise: Grey
        """
        self.errors = []
        self.doc = doc
        schema = self.schema
        if not isinstance(doc, dict):
            self.add(ref, 'type', 'object', doc)
            return self.errors

        # instance registries
        self.ids = {}
        for cls in schema.classes.values():
            self.ids[cls.name] = set()
            if cls.registry not in doc:
                continue
            registry = doc[cls.registry]
            reg_ref = '{}/{}'.format(ref, cls.registry)
            if not isinstance(registry, dict):
                self.add(reg_ref, 'type', 'object', registry)
                continue
            for an_id in registry:
                if cls.id_pattern is not None and not self.match(
                        cls.id_pattern, an_id):
                    self.add(reg_ref, 'id', cls.id_pattern, an_id)
                else:
                    self.ids[cls.name].add(an_id)
        if self.errors:
            # The registries are a precondition for everything else.
            return self.errors

        for cls in schema.classes.values():
            for an_id, value in doc.get(cls.registry, {}).items():
                self.composite(
                    cls, value, '{}/{}/{}'.format(ref, cls.registry,
                                                  self.key(an_id)))

        self.properties(schema.graph, doc, ref)
        return self.errors

    def add(self, ref, code, *detail):
        """Add an error; the detail is not used by this judge."""
        # pylint: disable=unused-argument
        self.errors.append(ERR(ref, code))

    def key(self, key):
        """Render the key of a map or of a registry in a reference."""
        return repr(key) if self.lang == 'py' else key

    def match(self, pattern, text):
        """Match the fully anchored pattern."""
        if any(char in text and char not in pattern for char in '\n\r'):
            # Dots and dollars differ between the languages on newlines.
            raise Grey('newline against a pattern')
        if not text.isascii() and pattern.isascii():
            raise Grey('non-ascii against a pattern')
        return re.match(pattern, text) is not None

    def composite(self, comp, value, ref):
        """Judge a class or an embed."""
        if not isinstance(value, dict):
            self.add(ref, 'type', 'object', value)
            return
        self.properties(comp, value, ref)

    def properties(self, comp, value, ref):
        """Judge the properties."""
        for prop in comp.props:
            if prop.json not in value:
                if not prop.optional:
                    self.add(ref, 'missing', prop.json)
                continue
            item = value[prop.json]
            if item is None:
                if self.lang == 'py':
                    if not prop.optional:
                        self.add(ref, 'missing', prop.json)
                    continue
                if prop.optional:
                    raise Grey('null for an optional property')
            self.value(prop.type, item, '{}/{}'.format(ref, prop.json))

    def value(self, a_type, value, ref):
        """Judge a value."""
        # pylint: disable=too-many-branches,too-many-return-statements
        # pylint: disable=too-many-statements
        name = a_type['type']
        if name == 'boolean':
            if not isinstance(value, bool):
                self.add(ref, 'type', name, value)
            return

        if name in ('integer', 'float'):
            if isinstance(value, bool):
                if self.lang == 'py':
                    raise Grey('bool as a number in Python')
                self.add(ref, 'type', name, value)
                return
            if not isinstance(value, (int, float)):
                self.add(ref, 'type', name, value)
                return
            if isinstance(value, float) and (value != value or value in (
                    float('inf'), float('-inf'))):
                raise Grey('not finite')
            if name == 'integer':
                if isinstance(value, float):
                    if value == int(value):
                        raise Grey('whole float as integer')
                    self.add(ref, 'type', name, value)
                    return
                if self.lang == 'go':
                    if value >= 2**63 or value < -2**63:
                        self.add(ref, 'bound')
                        return
                    if int(float(value)) != value:
                        raise Grey('integer not representable in float64')
                if self.lang == 'cpp' and not -2**63 <= value < 2**63:
                    self.add(ref, 'bound')
                    return
            else:
                if isinstance(value, int):
                    try:
                        same = int(float(value)) == value
                    except OverflowError:
                        raise Grey('huge')
                    if not same and self.lang != 'py':
                        raise Grey('integer not representable in float64')
            low, high = a_type.get('minimum'), a_type.get('maximum')
            if low is not None:
                if value < low or (a_type.get('exclusive_minimum', False)
                                   and value == low):
                    self.add(ref, 'bound', 'minimum', a_type, value)
                    return
            if high is not None:
                if value > high or (a_type.get('exclusive_maximum', False)
                                    and value == high):
                    self.add(ref, 'bound', 'maximum', a_type, value)
            return

        if name in ('string', 'path'):
            if not isinstance(value, str):
                self.add(ref, 'type', name, value)
                return
            if any(0xd800 <= ord(c) <= 0xdfff for c in value):
                raise Grey('surrogate')
            pattern = a_type.get('pattern')
            if pattern is not None and not self.match(pattern, value):
                self.add(ref, 'pattern', pattern, value)
            return

        if name in ('date', 'time', 'datetime'):
            if not isinstance(value, str):
                self.add(ref, 'type', name, value)
                return
            if not judge_dt(
                    a_type.get('format', DEFAULT_FORMATS[name]), value,
                    self.lang):
                # date.h accepts hours and minutes out of range (see
                # known_findings.txt).
                lax = (self.lang == 'cpp' and name == 'time'
                       and self.settings['datetime_library'] == 'date.h'
                       and re.search('[0-9]', value))
                self.add(ref, 'time-range' if lax else 'format', a_type, value)
            return

        if name == 'time_zone':
            if not isinstance(value, str):
                self.add(ref, 'type', name, value)
                return
            if (self.lang == 'py' and self.settings['timezone_as'] == 'str') or (
                    self.lang == 'cpp'
                    and self.settings['datetime_library'] == 'ctime'):
                return
            if value in KNOWN_ZONES:
                return
            if re.match(r'^[A-Z][a-z]+/Nowhere[A-Za-z]*$', value) or value in (
                    'Not/A_zone', '!!'):
                self.add(ref, 'format', a_type, value)
                return
            raise Grey('time zone')

        if name == 'duration':
            if not isinstance(value, str):
                self.add(ref, 'type', name, value)
                return
            got = duration_seconds(value)
            if got is None:
                if value.endswith('\n'):
                    raise Grey('trailing newline')
                self.add(ref, 'format', a_type, value)
                return
            secs, digits = got
            if digits > DURATION_DIGITS[self.lang]:
                self.add(ref, 'format', a_type, value)
                return
            if self.lang == 'py':
                if abs(secs) > 86400 * 999999990:
                    raise Grey('timedelta overflow')
            elif abs(secs) * 10**9 > 2**63 - 2**33:
                if abs(secs) * 10**9 < 2**63 + 2**33 or abs(
                        secs) * 10**9 > 2**70:
                    raise Grey('duration overflow')
                self.add(ref, 'format', a_type, value)
            return

        if name == 'array':
            if not isinstance(value, list):
                self.add(ref, 'type', name, value)
                return
            low, high = a_type.get('minimum_size'), a_type.get('maximum_size')
            if (low is not None and len(value) < low) or (
                    high is not None and len(value) > high):
                self.add(ref, 'size', a_type, value)
                return
            for i, item in enumerate(value):
                self.value(a_type['values'], item, '{}/{}'.format(ref, i))
            return

        if name == 'map':
            if not isinstance(value, dict):
                self.add(ref, 'type', name, value)
                return
            for key, item in value.items():
                self.value(a_type['values'], item,
                           '{}/{}'.format(ref, self.key(key)))
            return

        if name in self.schema.classes:
            if not isinstance(value, str):
                self.add(ref, 'type', name, value)
                return
            if value not in self.ids[name]:
                self.add(ref, 'ref', name, value)
            return

        self.composite(self.schema.embeds[name], value, ref)


class Canon:
    """Say what the document has to look like once parsed and serialized."""

    def __init__(self, schema, lang):
        self.schema = schema
        self.lang = lang
        self.settings = schema.mapping.get(lang, {})

    def doc(self, doc):
        """Canonicalize the document."""
        result = collections.OrderedDict()
        result.update(self.properties(self.schema.graph, doc))
        for cls in self.schema.classes.values():
            registry = doc.get(cls.registry, {})
            if registry:
                result[cls.registry] = collections.OrderedDict(
                    (an_id, self.properties(cls, value))
                    for an_id, value in registry.items())
        return result

    def properties(self, comp, value):
        """Canonicalize the properties."""
        result = collections.OrderedDict()
        for prop in comp.props:
            if prop.json in value and value[prop.json] is not None:
                result[prop.json] = self.value(prop.type, value[prop.json])
        return result

    def value(self, a_type, value):
        """Canonicalize a value."""
        name = a_type['type']
        if name == 'path':
            if self.lang == 'py' and self.settings['path_as'] == 'pathlib.Path':
                return str(pathlib.PurePosixPath(value))
            return value
        if name == 'duration':
            return Duration(value, self.lang)
        if name == 'array':
            return [self.value(a_type['values'], item) for item in value]
        if name == 'map':
            return collections.OrderedDict(
                (key, self.value(a_type['values'], item))
                for key, item in value.items())
        if name in self.schema.embeds:
            return self.properties(self.schema.embeds[name], value)
        return value


class Duration:
    """Represent an expected duration."""

    def __init__(self, text, lang):
        self.text = text
        self.lang = lang

    def __repr__(self):
        return 'Duration({})'.format(self.text)

    def accepts(self, text):
        """Check the serialized duration."""
        if not isinstance(text, str):
            return False
        got = duration_seconds(text)
        if got is None:
            return False
        mtch = _DURATION_RE.match(text)
        if mtch.group('Y') or mtch.group('Mo') or mtch.group('W'):
            return False
        return self.close_to(got[0])

    def close_to(self, seconds):
        """Compare with the exact seconds within the tolerance."""
        expected = duration_seconds(self.text)[0]
        # Granularity of the representation and rounding of the fractions;
        # whole components have to be exact (as far as a double is exact).
        em = _DURATION_RE.match(self.text)
        fractional = [
            key for key in ('Y', 'Mo', 'W', 'D', 'H', 'Mi')
            if em.group(key) and
            (key in ('Y', 'Mo') or '.' in em.group(key))
        ]
        tol = fractions.Fraction(0)
        if fractional:
            tol = fractions.Fraction(
                1, 10**6 if self.lang == 'py' else 10**9) * (
                    1 + len(fractional))
            tol += abs(expected) / 2**50
        elif self.lang != 'py' and abs(expected) * 10**9 > 2**53:
            tol = abs(expected) / 2**50
        return abs(seconds - expected) <= tol


def differs(expected, got, path='', ordered=False):
    """
    Compare the expected canonical document with the observed one.

    :return: description of the first difference, None if the same
    """
    # pylint: disable=too-many-return-statements
    if isinstance(expected, Duration):
        if expected.accepts(got):
            return None
        return '{}: expected {!r}, got {!r}'.format(path, expected, got)
    if isinstance(expected, dict):
        if not isinstance(got, dict):
            return '{}: expected an object, got {!r}'.format(path, got)
        if set(expected.keys()) != set(got.keys()):
            return '{}: expected keys {!r}, got {!r}'.format(
                path, sorted(expected), sorted(got))
        if ordered and list(expected.keys()) != list(got.keys()):
            return '{}: expected order {!r}, got {!r}'.format(
                path, list(expected), list(got))
        for key in expected:
            diff = differs(expected[key], got[key],
                           '{}/{}'.format(path, key), ordered)
            if diff:
                return diff
        return None
    if isinstance(expected, list):
        if not isinstance(got, list) or len(expected) != len(got):
            return '{}: expected {!r}, got {!r}'.format(path, expected, got)
        for i, (exp, act) in enumerate(zip(expected, got)):
            diff = differs(exp, act, '{}/{}'.format(path, i), ordered)
            if diff:
                return diff
        return None
    if isinstance(expected, bool) or isinstance(got, bool):
        if expected is got:
            return None
        return '{}: expected {!r}, got {!r}'.format(path, expected, got)
    if isinstance(expected, (int, float)):
        if isinstance(got, (int, float)) and expected == got:
            return None
        return '{}: expected {!r}, got {!r}'.format(path, expected, got)
    if type(expected) is type(got) and expected == got:
        return None
    return '{}: expected {!r}, got {!r}'.format(path, expected, got)
