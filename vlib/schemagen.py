"""Generate schemas which are valid by construction."""
import collections
import copy
import pathlib
import re

OD = collections.OrderedDict

# Fully anchored patterns in the dialect common to Python, RE2 and ECMAScript:
# (pattern, texts which match, texts which do not match)
PATTERNS = [
    (r'^[a-z]+$', ['a', 'abc', 'zz'], ['', 'A', 'ab1', ' a']),
    (r'^[0-9]{2,3}$', ['12', '999'], ['1', '1234', 'ab']),
    (r'^(true|null|[0-9]+)$', ['true', 'null', '0', '17'],
     ['false', 'trueish', '']),
    (r'^\s*[A-Z]\w*$', ['A', '  B_1', 'Zeta'], ['a', '1', ' ']),
    (r'^a\.b$', ['a.b'], ['aXb', 'a.bc', '']),
    (r'^[^/]+/[^/]+$', ['a/b', 'x y/z'], ['a', 'a/', 'a/b/c']),
    (r'^"[a-z]*"$', ['""', '"ab"'], ['ab', '"', '"A"']),
    (r"^'[a-z]*'$", ["''", "'ab'"], ['ab', "'", "'A'"]),
    (r"^it's$", ["it's"], ['its', "it's "]),
    (r'^\{[a-z]*\}$', ['{}', '{ab}'], ['ab', '{', '{1}']),
    (r'^\\[a-z]+$', ['\\a', '\\abc'], ['a', '\\', '\\\\a']),
    (r'^100%$', ['100%'], ['100', '100%%']),
    (r'^%d %s$', ['%d %s'], ['1 a', '%d']),
    (r'^`x`$', ['`x`'], ['x', '`x']),
    (r'^(?:ab)*$', ['', 'ab', 'abab'], ['a', 'aba', 'b']),
    (r'^<a href="x">&$', ['<a href="x">&'], ['<a>', '&']),
    (r'^"""$', ['"""'], ['""', '"']),
    (r'^.{3}$', ['abc', '   ', '"\'\\'], ['', 'ab', 'abcd']),
    (r'^[A-Za-z_][A-Za-z_0-9]*$', ['_', 'aB_9'], ['9', '', 'a-b']),
    (r'^[+-]?[0-9]+(\.[0-9]+)?$', ['+1', '-2.50', '3'], ['1.', '.5', '--1']),
    (r'^(a|b)\1?$' if False else r'^(a|b){1,2}$', ['a', 'ba'], ['', 'aab']),
    (r'^\$\^\|\?\*\+\(\)\[\]$', ['$^|?*+()[]'], ['$^', '']),
    (r'^/some/.*\.(png|jpg)$', ['/some/x.png', '/some/a b/c.jpg'],
     ['/some/x.gif', 'some/x.png', '']),
    (r'^\tx$', ['\tx'], ['x', 'tx', '\\tx']),
    (r'^\x41\x5a?$', ['A', 'AZ'], ['x41', 'a', 'Z']),
    ('^\ta$', ['\ta'], ['a', ' a']),
    (r'^//[a-z]*\*/$', ['//*/', '//ab*/'], ['/*', '//']),
    (r'^#[0-9a-fA-F]{6}$', ['#00ff7F'], ['#00ff7', '00ff7f', '#00ff7g']),
    (r'^[\]\[{}]+$', ['[]', '{]'], ['()', '']),
    (r"^R\"\(x\)\"$", ['R"(x)"'], ['x', 'R"x"']),
    (r'^\)"$', [')"'], ['"', ')']),
    (r'^\bx\b$', ['x'], ['xy', ' x']),
    (r'^[\w.+-]+@[\w-]+\.[a-z]{2,}$', ['a.b+c@d-e.org'], ['a@b', '@x.org']),
    ('^na\u00efve$', ['na\u00efve'], ['naive', 'na\u00efv', 'nave']),
    ('^(\u65e5\u672c|\U0001f600)x$', ['\u65e5\u672cx', '\U0001f600x'],
     ['x', '\u65e5x', '\U0001f601x']),
    ('^a\nb$', ['a\nb'], ['ab', 'a\\nb', 'a b', 'anb']),
    (r'^a\nb$', ['a\nb'], ['ab', 'a\\nb', 'a b', 'anb']),
    (r'^\{\{ x \}\}$', ['{{ x }}'], ['x', '{ x }']),
    (r'^\{% x %\}\{# y #\}$', ['{% x %}{# y #}'], ['', ' ', '{% x %}']),
    (r'^\\$', ['\\'], ['', '\\\\', '/']),
    (r'^\?\?\)\?\?/$', ['??)??/'], [']\\', '??)']),
    ('^\'"`$', ['\'"`'], ["'", '"']),
    (r'^ x  $', [' x  '], ['x', ' x ', ' x']),
    ('^a\u2028\u00a0$', ['a\u2028\u00a0'], ['a', 'a  ']),
    ('^a\rb$', ['a\rb'], ['ab', 'a\\rb', 'arb']),
    (r'^(a)v0g0n"$', ['av0g0n"'], ['a', '"', '(a)v0g0n"']),
    (r'^a??=b$', ['a=b', '=b'], ['a#b', '#b', 'ab', 'aa=b']),
    ('^\x01\x7f$', ['\x01\x7f'], ['', '\x01', '\\x01']),
    (r'^x\#y\&z$' if False else r'^x#y&z;$', ['x#y&z;'], ['x', 'x#y&amp;z;']),
]



def stable_paths(pattern):
    """List the texts which a path object does not normalize."""
    return [
        text for text in samples(pattern)[0]
        if str(pathlib.PurePosixPath(text)) == text
    ]


PATTERN_SAMPLES = {pat: (good, bad) for pat, good, bad in PATTERNS}

# Pieces of the texts which are matched literally
CHUNKS = [
    'a', 'Z', '0', ' ', '  ', '`', '``', '"', '""', '"""', "'", "''", "'''",
    '\\', '\\\\', '\\n', '\\"', "\\'", '\\u0041', '%', '%%', '%s', '%(x)s', '{',
    '}', '{}', '{0}', '{{', '}}', '{{x}}', '{%', '%}', '{#', '#}', '$', '${x}',
    '#', '??/', '??=', '/*', '*/', '//', '(', ')', ')"', ')v0"', ')v1"', '[',
    ']', '<', '>', '&', '&amp;', '|', '^', '*', '+', '?', '.', ',', ';', ':',
    '=', '-', '_', '~', '@', '!', '/', '\t', '\xfc', '\u65e5', '\U0001f600'
]


def escaped(text):
    """Give the pattern which matches only the text."""
    return '^' + ''.join(
        '\\' + char if char in '\\.^$*+?()[]{}|' else char
        for char in text) + '$'


def samples(pattern):
    """Give the texts which match the pattern and which do not."""
    if pattern in PATTERN_SAMPLES:
        return PATTERN_SAMPLES[pattern]
    text = re.sub(r'(?s)\\(.)', r'\1', pattern[1:-1])
    assert pattern == escaped(text), pattern
    good = [text]
    bad = [
        other for other in (text[1:], text[:-1], text + 'x', 'x' + text,
                            text + text[-1], text[0] + text, '')
        if other != text
    ]
    return good, bad


def literal_pattern(rng):
    """Generate the pattern of a text with peculiar characters."""
    return escaped(''.join(
        rng.choice(CHUNKS) for _ in range(rng.choice([1, 2, 3, 5, 9]))))


# Format -> languages in which every value in the range is representable,
# so that both the values and the texts survive.
ALL = ('py', 'go', 'cpp')
DATE_FORMATS = [
    (None, ALL),
    ('%Y-%m-%d', ALL),
    ('%d.%m.%Y', ALL),
    ('%m/%d/%Y', ALL),
    ('%Y%m%d', ALL),
    ('%d %b %Y', ALL),
    ('%B %d, %Y', ALL),
    ('%y-%m-%d', ALL),
    ('%%%Y-%m-%d%%', ALL),
    ('"%Y" \'%m\' \\%d', ALL),
    ('{%Y}/{%m}/{%d}', ALL),
    ('<%Y&%m>`%d`', ('py', 'go', 'cpp')),
    ('%a, %d %b %Y', ALL),
    ('%A %d %B %Y', ALL),
    ('%e.%m.%Y', ('go', )),
]
TIME_FORMATS = [
    (None, ALL),
    ('%H:%M:%S', ALL),
    ('%H-%M', ALL),
    ('%H%M%S', ALL),
    ('%I:%M:%S %p', ALL),
    ('%p %I.%M.%S', ALL),
    ('"%H"\'%M\'\\%S', ALL),
    ('%H h %M min %S s', ALL),
    ('{%H}%%{%M}', ALL),
    ('%S:%M:%H', ALL),
    ('%l:%M:%S %P', ('go', )),
    ('%I:%M:%S %P', ('go', )),
]
DATETIME_FORMATS = [
    (None, ALL),
    ('%Y-%m-%dT%H:%M:%SZ', ALL),
    ('%Y-%m-%d %H:%M:%S', ALL),
    ('%d.%m.%Y %I:%M:%S %p', ALL),
    ('%b %d %Y %H:%M', ALL),
    ('%H:%M:%S, %d %B %Y', ALL),
    ('%Y%m%dT%H%M%S', ALL),
    ('"%Y-%m-%d" \'%H\\%M\'', ALL),
    ('%y/%m/%d %H.%M.%S', ALL),
    ('100%% %Y-%m-%d {%H:%M}', ('py', 'cpp')),
    ('%% %Y-%m-%d {%H:%M}', ALL),
    ('%a %d %b %Y %H:%M:%S', ALL),
    ('%Y-%m-%dT%H:%M:%S%z', ('py', 'go')),
    ('%e %b %Y %l:%M:%S %P', ('go', )),
    ('%Y-%m-%d %H:%M:%S %Z', ('go', )),
]
FORMATS = {
    'date': DATE_FORMATS,
    'time': TIME_FORMATS,
    'datetime': DATETIME_FORMATS
}

CLASS_NAMES = [
    'Person', 'Some_URL', 'Data_point', 'Lost_key', 'Criterion', 'Matrix',
    'Bounding_box', 'Boss', 'Toy', 'Fairy', 'Life', 'IO_unit', 'X', 'V2_item',
    'Focus', 'CamelBack', 'SomeID', 'Maximum', 'Low_minimum', 'Essay', 'Key',
    'Map_of_city', 'A_b_c_d', 'Bus', 'Parser', 'Value_holder'
]
# endings which matter for the plural
CLASS_NAMES += [
    'Day', 'Big_key', 'Ski_iy', 'Alloy', 'Wise_guy', 'Sky', 'City', 'Fox',
    'Mass', 'Gas', 'Quiz', 'Bush', 'Ay_y', 'Buoy', 'Obloquy', 'Baby_S', 'Y_x'
]
# names such that one begins with another one
FAMILIES = [
    ['Box', 'Box_lid', 'Boxer', 'Box_y'], ['Bus', 'Bus_stop', 'Busy', 'Bu'],
    ['City', 'City_hall', 'Cit', 'Citizen'],
    ['Item', 'Item_s_kind', 'Items_of_x', 'IteM2'],
    ['Guy', 'Guy_s', 'Gu', 'Guyot'], ['E', 'EB', 'E_c', 'Ez', 'Es_of'],
    ['Point', 'Point_2', 'Point_a', 'PointZ', 'Pointes'],
    ['Z', 'Y', 'X', 'W', 'V'],
    ['Target_box', 'Target_lid', 'Lid', 'Target_key_2']
]
EMBED_NAMES = [
    'Address', 'Geo_JSON', 'Nested_part', 'URL_list', 'Y', 'Empty_one',
    'Rect3', 'Some_embed', 'MixedCase', 'Ref_holder', 'Deep_inner', 'P_q'
]
GRAPH_NAMES = [
    'Some_graph', 'Graph', 'Pipeline', 'My_IO', 'G', 'Geometry2', 'Zoo_park',
    'DataSet'
]
PROP_NAMES = [
    'x', 'some_text', 'URL', 'some_ID', 'Uppercase', 'camelCase', 'a1',
    'value', 'errors', 'target', 'ref', 'instance', 'result', 'obj', 'items',
    'ordered', 'keys', 'len', 'str', 'name', 'index', 'data', 'key', 'err',
    'path_to_it', 'x_1', 'count_of_IDs', 'HTML5_page', 'uid', 'jsonable',
    'graph', 'date_time', 'json', 'strconv', 'list', 'dict', 'parse', 'time_',
    'registry', 'i', 'ok', 'cast', 'length', 'text', 'seconds', 'pathlib_',
    'tmp', 'target_1', 'value_0', 'fmt_', 'map_', 'Z', 'q9', 'longName_withMix'
]
# names of variables in the generated code
CLASS_NAMES += ['Instance', 'Item_1', 'Target_0', 'Result', 'Obj', 'Target',
                'Message', 'Registry', 'Value_0', 'Kv']
EMBED_NAMES += ['Item_2', 'Value_1', 'Target_item_3', 'Instance_ref', 'Cast_0',
                'Key_2', 'Err', 'Target_1']
PLURALS = ['Instance', 'Value', 'Values', 'Target', 'Item_1', 'Registry',
           'Instances', 'Ref', 'Graph', 'Result', 'Obj', 'It', 'Errs']
PROP_NAMES += ['item_1', 'target_item_0', 'registry_value', 'instance_value',
               'cast_0', 'it', 'kv', 'instance_ref', 'got', 'expected']
PROP_NAMES = [name for name in PROP_NAMES if not name.endswith('_')]

JSON_NAMES = [
    'some json', 'with"quote', "with'quote", 'back\\slash', 'per%cent %d %s',
    '{brace}', '{}', 'a/b', '$ref', '<tag>&amp;', 'tab\there', '`tick`',
    '\u00fcn\u00ef', '', 'id', '"""', "'''", 'CAPS', 'null', '0', '%%',
    'trailing\\', '//c', '/*c*/', '\\n', 'new\nline', 'x' * 90
]
# Plainly decorated JSON names, which are easily normalized by mistake
JSON_SHAPES = [
    ' {}', '{} ', '\t{}', '{}\n', '  {}  ', '-{}', '{}-', '_{}', '{}_', '__{}__',
    '{}.', '.{}', '@{}', '#{}', '{}[]', '{}?', '{}!', '"{}"', "'{}'", '{} {}',
    '{}-{}', '{}.{}', '{}__{}', '{}/', '/{}', '~{}', '{}:', '{}\u0301', '\u00a0{}'
]

DESCRIPTIONS = [
    'represents something.',
    'defines "quoted" text.',
    "holds it's 'single' quotes.",
    'has a back\\slash and \\n.',
    'has """triple""" quotes.',
    'has {braces} and %d percent %.',
    'has an /* opening and a */ closing.',
    'has `backticks` and // slashes.',
    'has unicode: \u00fc \u2203.',
    'is long ' + 'and longer ' * 12 + 'still.',
]
PROP_DESCRIPTIONS = DESCRIPTIONS + [
    'ends with a backslash \\', 'ends with a quote "', "ends with a tick '",
    'spans\nover\n\nlines.', '"', '\\', 'x', '    indented', 'ends with """'
]


class Opts:
    """Define what may be generated."""

    def __init__(self,
                 lang,
                 cross=False,
                 weird=True,
                 depth=3,
                 classes=(0, 4),
                 embeds=(0, 3),
                 props=(0, 6),
                 descriptions=True,
                 class_weight=3,
                 names=None,
                 texts=None,
                 large=0.06):
        # pylint: disable=too-many-arguments
        # pylint: disable=too-many-instance-attributes
        self.lang = lang
        self.cross = cross
        self.weird = weird
        self.depth = depth
        self.classes = classes
        self.embeds = embeds
        self.props = props
        self.descriptions = descriptions
        self.class_weight = class_weight
        # kind of the name -> names
        self.names = dict({
            'graph': GRAPH_NAMES, 'class': CLASS_NAMES, 'embed': EMBED_NAMES,
            'property': PROP_NAMES}, **(names or {}))
        # kind of the text -> function which draws such a text
        self.texts = texts or {}
        # probability of an unusually large schema
        self.large = large


class Gen:
    """Generate one schema."""

    def __init__(self, rng, opts):
        self.rng = rng
        self.opts = opts
        self.class_names = []
        self.embed_names = []
        self.later_embeds = []
        self.patterns = []
        self.depth = opts.depth
        self.datetime_library = None
        # Exceed the usual size of a schema in one respect.
        self.large = None
        if not opts.texts and self.chance(opts.large):
            self.large = rng.choice(['depth', 'classes', 'embeds', 'props'])
        if self.large == 'depth':
            self.depth += rng.choice([1, 2, 4])

    def chance(self, prob):
        """Toss the coin."""
        return self.rng.random() < prob

    def drawn(self, kind):
        """Check if a text of the kind is to be drawn by the options."""
        return kind in self.opts.texts and self.chance(0.5)

    def settings(self):
        """Generate the language settings."""
        rng = self.rng
        result = OD()
        langs = ALL if self.opts.cross else (self.opts.lang, )
        if 'cpp' in langs:
            cpp = OD()
            cpp['namespace'] = rng.choice(
                ['some_ns', 'some::nested::ns', 'ns2', 'Aa::b_1', 'parse',
                 'a::jsoncpp', 'chrono', 'some::parse::parse'])
            cpp['path_as'] = rng.choice(
                ['std::filesystem::path', 'boost::filesystem::path'])
            cpp['optional_as'] = rng.choice(
                ['std::optional', 'boost::optional',
                 'std::experimental::optional'])
            cpp['datetime_library'] = rng.choice(['ctime', 'date.h'])
            if self.chance(0.5):
                cpp['indention'] = rng.choice(['  ', '    ', '\t', ' ', ''])
            result['cpp'] = cpp
            self.datetime_library = cpp['datetime_library']
        if 'go' in langs:
            result['go'] = OD([('package', rng.choice(
                ['somegraph', 'some_graph', 'pkg2', 'Geo', 'fmt', 'value',
                 'errors', 'string']))])
        if 'py' in langs:
            py = OD()
            py['module_name'] = rng.choice(
                ['some_mod', 'some.nested.mod', 'mod2', 'a_b.c_d', 'result',
                 'obj.graph', 'some.parse', 'some.value', 'registry'])
            py['path_as'] = rng.choice(['str', 'pathlib.Path'])
            py['timezone_as'] = rng.choice(['str', 'pytz.timezone'])
            if self.chance(0.5):
                py['indention'] = rng.choice(['  ', '    ', '\t', ' '])
            result['py'] = py
        return result

    def formats(self, a_type):
        """List the formats which are lossless in the languages."""
        langs = ALL if self.opts.cross else (self.opts.lang, )
        result = [
            fmt for fmt, supported in FORMATS[a_type]
            if all(lang in supported for lang in langs)
        ]
        if 'cpp' in langs and self.datetime_library == 'date.h':
            # The library misreads the 12-hour clock.
            result = [
                fmt for fmt in result if fmt is None or '%p' not in fmt
            ]
        return result

    def constrained(self, name):
        """Generate a primitive type with constraints."""
        # pylint: disable=too-many-branches
        rng = self.rng
        mapping = OD([('type', name)])
        if name == 'integer':
            kind = rng.randrange(6)
            low = rng.choice([0, 1, -5, -1000000, 10, -2**31, 2**33])
            high = low + rng.choice([1, 2, 3, 10, 1000, 2**34])
            if self.chance(0.25):
                high = rng.choice([0, 0, -1, 1, 2**31, 2**53])
                low = high - rng.choice([2, 3, 10, 1000, 2**34])
            if kind in (1, 3, 5):
                mapping['minimum'] = low
                if self.chance(0.4):
                    mapping['exclusive_minimum'] = self.chance(0.7)
            if kind in (2, 3, 5):
                mapping['maximum'] = high
                if self.chance(0.4) and high - low > 1:
                    mapping['exclusive_maximum'] = self.chance(0.7)
        elif name == 'float':
            kind = rng.randrange(6)
            low = rng.choice([0, 0.5, -5, -1.25, -1e6, 1e-3, 0.1, -0.75, 3,
                              1e-7, 123456789.125, 0.1 + 0.2, 1 / 3, -1e15])
            high = low + rng.choice([0.5, 0.25, 1, 2, 1000.125])
            if self.chance(0.25):
                high = rng.choice([0, 0, 0.0, -0.5, 1e-3, 1])
                low = high - rng.choice([0.5, 0.25, 1, 2, 1000.125])
            if kind in (1, 3, 5):
                mapping['minimum'] = low
                if self.chance(0.4):
                    mapping['exclusive_minimum'] = self.chance(0.7)
            if kind in (2, 3, 5):
                mapping['maximum'] = high
                if self.chance(0.4):
                    mapping['exclusive_maximum'] = self.chance(0.7)
        elif name in ('string', 'path'):
            if self.chance(0.55):
                mapping['pattern'] = self.opts.texts['pattern'](
                    rng) if self.drawn('pattern') else self.pattern(
                        name == 'path')
        elif name in ('date', 'time', 'datetime'):
            fmt = rng.choice(self.formats(name))
            if self.drawn('format'):
                fmt = self.opts.texts['format'](rng, name)
            if fmt is not None:
                mapping['format'] = fmt
        return mapping

    def pattern(self, of_path):
        """Generate a pattern of known samples."""
        # The same pattern may be used at many places of a schema.
        known = [
            pattern for pattern in self.patterns
            if not of_path or stable_paths(pattern)
        ]
        if known and self.chance(0.25):
            return self.rng.choice(known)
        pattern = None
        if self.chance(0.3):
            pattern = literal_pattern(self.rng)
            if of_path and not stable_paths(pattern):
                pattern = None
        if pattern is None:
            pattern = self.rng.choice([
                pattern for pattern, _, _ in PATTERNS
                if not of_path or stable_paths(pattern)
            ])
        self.patterns.append(pattern)
        return pattern

    def recursive(self, mapping):
        """Check if an embed is used before it is defined."""
        while 'values' in mapping:
            mapping = mapping['values']
        return mapping['type'] in self.later_embeds

    def a_type(self, depth):
        """Generate a type definition."""
        rng = self.rng
        choices = [
            'boolean', 'integer', 'integer', 'float', 'float', 'string',
            'string', 'path', 'date', 'time', 'datetime', 'duration',
            'time_zone'
        ]
        if depth < self.depth:
            choices += ['array', 'array', 'array', 'map', 'map', 'map'] * (
                3 if self.large == 'depth' else 1)
        if self.class_names:
            choices += ['<class>'] * self.opts.class_weight
        embeds = self.embed_names
        if depth > 0 and self.later_embeds and self.chance(0.3):
            embeds = embeds + self.later_embeds
        if embeds:
            choices += ['<embed>'] * 3
        name = rng.choice(choices)
        if name == '<class>':
            return OD([('type', rng.choice(self.class_names))])
        if name == '<embed>':
            return OD([('type', rng.choice(embeds))])
        if name == 'array':
            mapping = OD([('type', 'array')])
            kind = rng.randrange(5)
            low = rng.choice([0, 1, 2])
            if kind in (1, 3):
                mapping['minimum_size'] = low
            if kind in (2, 3):
                mapping['maximum_size'] = low + rng.choice([0, 1, 2, 3])
                if depth < 2 and self.chance(0.1):
                    mapping['maximum_size'] = rng.choice([9, 10, 16, 100])
            elif kind == 1 and depth == 0 and self.chance(0.05):
                mapping['minimum_size'] = rng.choice([5, 10, 16])
            mapping['values'] = self.a_type(depth + 1)
            if self.recursive(mapping):
                mapping.pop('minimum_size', None)
            return mapping
        if name == 'map':
            return OD([('type', 'map'), ('values', self.a_type(depth + 1))])
        return self.constrained(name)

    def properties(self, low, high, reserved=()):
        """Generate properties."""
        rng = self.rng
        count = rng.randint(low, high)
        if self.large == 'props' and high > 0 and self.chance(0.5):
            count = high + rng.randint(1, 8)
        names = []
        taken = set(reserved)
        pool = self.opts.names['property']
        for name in rng.sample(pool, len(pool)):
            if len(names) == count:
                break
            norm = name.lower().replace('_', '')
            if norm in taken or norm == 'id':
                continue
            taken.add(norm)
            names.append(name)
        json_taken = set(names) | set(reserved) | {
            name.lower() for name in names
        }
        result = OD()
        for name in names:
            base = self.a_type(0)
            mapping = OD([('type', base.pop('type'))])
            mapping['description'] = rng.choice(
                PROP_DESCRIPTIONS if self.opts.descriptions
                and self.chance(0.4) else ['represents a property.'])
            if self.drawn('property'):
                mapping['description'] = self.opts.texts['property'](rng)
            if self.chance(0.35):
                mapping['optional'] = self.chance(0.9)
            if self.chance(0.25):
                json_name = rng.choice(
                    JSON_NAMES if self.opts.weird else
                    ['someJson', 'JSON_name', 'a_b'])
                if self.opts.weird and self.chance(0.4):
                    shape = rng.choice(JSON_SHAPES)
                    json_name = shape.format(*[
                        rng.choice([name, name.upper(), name.title(),
                                    name.replace('_', '-'), 'x'])
                        for _ in range(2)])
                if self.drawn('json'):
                    json_name = self.opts.texts['json'](rng)
                if json_name not in json_taken:
                    json_taken.add(json_name)
                    mapping['json'] = json_name
            mapping.update(base)
            result[name] = mapping
        return result

    def description(self):
        """Generate a description of a composite."""
        if self.drawn('composite'):
            return self.opts.texts['composite'](self.rng)
        return self.rng.choice(
            DESCRIPTIONS if self.opts.descriptions and self.chance(0.3) else
            ['represents something.'])

    def rename(self, graph, classes, embed_names):
        """Let the names of different kinds be close to each other."""
        from vlib import model

        def many(cls):
            return cls.get('plural') or model.plural(cls['name'])

        def norm(name):
            return name.lower().replace('_', '')

        for cls in classes:
            if not self.chance(0.08):
                continue
            taken = {norm(many(other)) for other in classes}
            name = self.rng.choice(PLURALS)
            if norm(name) not in taken:
                rest = list(cls.items())
                cls.clear()
                cls.update(rest[:1] + [('plural', name)] + [
                    item for item in rest[1:] if item[0] != 'plural'])
        if len(classes) > 1 and self.chance(0.15):
            # The registry of one class is named like a variable which the
            # generated code derives from the name of another class.
            one, other = sorted(
                self.rng.sample(classes, 2),
                key=lambda cls: not cls['name'].startswith('Target_'))
            stem = one['name']
            if re.match('Target_[a-z]', stem) and self.chance(0.7):
                stem = stem[7:8].upper() + stem[8:]
            name = stem + '_' + self.rng.choice(
                ['instance', 'instance', 'ref', 'registry', 'value', 'obj'])
            if norm(name) not in {norm(many(cls)) for cls in classes}:
                rest = list(other.items())
                other.clear()
                other.update(rest[:1] + [('plural', name)] + [
                    item for item in rest[1:] if item[0] != 'plural'])
        if classes and self.chance(0.08):
            taken = {norm(cls['name']) for cls in classes} | {
                norm(name) for name in embed_names}
            name = many(self.rng.choice(classes))
            if norm(name) not in taken:
                graph['name'] = name

    def choose_classes(self, count, pool, graph):
        """Choose the names of the classes."""
        from vlib import model
        if self.opts.names['class'] is CLASS_NAMES and self.chance(0.15):
            family = [name for name in self.rng.choice(FAMILIES)
                      if name != graph]
            names = self.rng.sample(family, min(len(family), max(
                count, min(2, self.opts.classes[1]))))
        else:
            names = self.rng.sample(pool, min(count, len(pool)))
        result = []
        taken = set()
        for name in names:
            norms = {text.lower().replace('_', '')
                     for text in (name, model.plural(name))}
            if not norms & taken:
                taken |= norms
                result.append(name)
        return result

    def schema(self):
        """Generate the schema."""
        rng, opts = self.rng, self.opts
        result = OD()
        result['name'] = rng.choice(opts.names['graph'])
        result['description'] = self.description()
        result.update(self.settings())

        n_classes = rng.randint(*opts.classes)
        n_embeds = rng.randint(*opts.embeds)
        if self.large == 'classes' and opts.classes[1] > 0:
            n_classes = opts.classes[1] + rng.randint(1, 6)
        if self.large == 'embeds' and opts.embeds[1] > 0:
            n_embeds = opts.embeds[1] + rng.randint(1, 6)
        pool = [name for name in opts.names['class']
                if name != result['name']]
        self.class_names = self.choose_classes(
            n_classes, pool, result['name'])
        embed_names = [name for name in opts.names['embed']
                       if name not in self.class_names
                       and name != result['name']]
        embed_names = rng.sample(embed_names, min(n_embeds, len(embed_names)))

        embeds = []
        for i, name in enumerate(embed_names):
            self.later_embeds = embed_names[i:]
            embed = OD([('name', name), ('description', self.description())])
            props = self.properties(0 if self.chance(0.15) else 1,
                                    opts.props[1] // 2 + 1)
            if props:
                embed['properties'] = props
            embeds.append(embed)
            self.embed_names.append(name)
        self.later_embeds = []
        if self.chance(0.4):
            rng.shuffle(embeds)

        registries = set()
        classes = []
        for name in self.class_names:
            cls = OD([('name', name)])
            if self.chance(0.25):
                cls['plural'] = rng.choice(['', '', 'All_', 'ZooOf']) + (
                    name + rng.choice(['_collection', '_IDs', 'Group']))
            cls['description'] = self.description()
            if self.chance(0.4):
                cls['id_pattern'] = self.pattern(False)
                if self.drawn('pattern'):
                    cls['id_pattern'] = opts.texts['pattern'](rng)
            props = self.properties(0 if self.chance(0.15) else 1,
                                    opts.props[1])
            if props:
                cls['properties'] = props
            classes.append(cls)

        from vlib import model
        if not opts.texts and opts.names['class'] is CLASS_NAMES:
            self.rename(result, classes, embed_names)
        for cls in classes:
            many = cls.get('plural') or model.plural(cls['name'])
            registries.add(many.lower())
            registries.add(many.lower().replace('_', ''))
        props = self.properties(
            max(opts.props[0], 0 if self.chance(0.1) else 1), opts.props[1],
            reserved=registries)
        if props:
            result['properties'] = props
        if classes:
            result['classes'] = classes
        if embeds:
            result['embeds'] = embeds
        return result


def generate(rng, opts):
    """Generate a random valid schema."""
    return Gen(rng, opts).schema()


def features(mapping):
    """List the features which the schema exercises."""
    result = set()

    def rec(a_type, ctx):
        name = a_type['type']
        if name[:1].isupper():
            name = '<composite>'
        extras = ','.join(
            sorted(key for key in a_type if key not in (
                'type', 'description', 'values', 'json', 'optional')))
        result.add('{}{}({})'.format(ctx, name, extras))
        if 'values' in a_type:
            rec(a_type['values'], ctx + a_type['type'] + '>')

    comps = [('graph', mapping)]
    comps += [('class', sub) for sub in mapping.get('classes', [])]
    comps += [('embed', sub) for sub in mapping.get('embeds', [])]
    for kind, comp in comps:
        if kind == 'class' and 'id_pattern' in comp:
            result.add('id_pattern')
        for prop in comp.get('properties', {}).values():
            rec(prop, kind + ('?' if prop.get('optional') else '') + ':')
    return result


def clone(mapping):
    """Copy the schema deeply."""
    return copy.deepcopy(mapping)
