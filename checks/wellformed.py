"""Check that the generated code is well-formed (P14, P15, P16, P24)."""
import builtins
import collections
import dis
import inspect
import re
import subprocess
import sys
import types
import typing
import warnings

from vlib import (codegen, common, cppmake, gorun, model, par, pyrun, rules,
                  schemagen)

OD = collections.OrderedDict

FRAGMENTS = [
    '"', '""', '"""', "'", "''", "'''", '\\', '\\\\', '\\n', '\\x', '\\u12',
    '\\N', '\\N{DASH}', '\\1', '{', '}', '{}', '{{', '}}', '{0}', '{x}',
    '{% raw %}', '{# x #}', '%', '%%', '%s', '%d', '%v', '%!', '/*', '*/',
    '//', '#', '`', '``', '$', '$(x)', '${x}', '<', '>', '&', '&amp;', '??/',
    '??)', 'R"(', ')"', ')v0g0n"', 'v0g0n', '\n', '\n\n', '\r', '\r\n', '\t',
    '\n    ', '\n\t', '    ', '        x', ' ', '\x0b', '\x0c', '\x1b',
    '\x01', '\x1c', '\x1d', '\x1e', '\x1f', '\x7f', '\x85', '\xa0', '\u2028',
    '\u2029', '\u200e', '\xfc', '\u6f22', '\U0001f600', '0', '7', '9', 'a',
    'f', 'x', 'A text', 'word', 'return', 'ref', 'errors', '~1', '~', '/',
    '^', '.', '*', '+', '?', '(', ')', '[', ']', '|', ',', ';', ':', '!',
    '@', '=', '-', '_', ':param x: y', '>>> 1 / 0', '...', '.. code-block::',
    '# type: ignore', 'noqa', '%S', 'L"x"', 'u8', '\\u0041', '\\101', '\\0'
]
META = set('\\.*+?()[]{}|^$/')


def text(rng, low=0, high=8):
    """Draw an adversarial text."""
    return ''.join(
        rng.choice(FRAGMENTS) for _ in range(rng.randint(low, high)))


def pattern(rng):
    """Draw an adversarial pattern in the common dialect."""
    return '^{}{}$'.format(
        ''.join('\\' + char if char in META else char
                for char in text(rng, 1, 6)),
        rng.choice(['', '', 'a*', '[a-z]+', '(x|y)?', '\\s', '\\.{2}']))


def layout(rng, kind):
    """Draw an adversarial format of dates and times."""
    letters = {'date': 'Ymd', 'time': 'HMS', 'datetime': 'YmdHMS'}[kind]
    parts = []
    for letter in letters:
        parts.append(
            rng.choice(FRAGMENTS).replace('%', '%%')
            if rng.random() < 0.6 else '-')
        parts.append('%' + letter)
    parts.append(rng.choice(FRAGMENTS).replace('%', '%%'))
    return ''.join(parts)


def description(rng):
    """Draw an adversarial description."""
    return text(rng, 1, 8)


TEXTS = {
    'pattern': pattern,
    'format': layout,
    'json': lambda rng: text(rng, 0, 6),
    'property': description,
    'composite': lambda rng: 'word{}.'.format(
        text(rng, 0, 8).replace('\n', ' '))
}


# -- names -----------------------------------------------------------------
WORDS = set(
    'main init string error new make append copy len cap nil iota print '
    'range value values errors Errors Error Value Parse parse Json json std '
    'date boost ref Ref graph Graph target instance property optional list '
    'dict set object type self cls id_ map Map vector unique_ptr chrono Time '
    'time Duration duration Location fmt strconv strings math regexp testing '
    'datetime collections typing pathlib pytz re int float bool str '
    'registry registries kRegistry message expected '
    'Any Optional List Dict MutableMapping OrderedDict '
    'True_ size begin end first second find count insert emplace at push_back '
    'size_t int64_t uint64_t nullptr_t tm tm_sec timezone asm_ main_ '
    'Max Min max min abs floor nan inf isnan test Test TestGraph '
    'Result result Name name Struct struct_ Interface serialize Serialize '
    'from_json to_json fromJSONable toJSONable _x x_'.split())


def candidates(lang):
    """Collect the identifiers which occur in the generated code."""
    found = set(WORDS)
    for number in range(3):
        rng = common.rng('names', lang, number)
        mapping = schemagen.generate(
            rng, schemagen.Opts(lang, classes=(3, 4), embeds=(2, 3),
                                props=(5, 6)))
        with common.scratch() as root:
            try:
                codegen.generate(mapping, lang, root / 'out', workdir=root)
            except codegen.GenerationError:
                # The check itself meets such schemas.
                continue
            for path in sorted((root / 'out').iterdir()):
                found.update(re.findall(
                    '[A-Za-z_][A-Za-z0-9_]*',
                    path.read_text(encoding='utf-8')))
    found.update(
        mtch for name in list(found)
        for mtch in re.findall('^(?:serialize_|new)?(.*?)'
                               '(?:_from|_re|FromJSONable|ToJSONable)?$', name)
        if mtch)
    return sorted(found)


def single(lang, kind, name):
    """Give a schema with the name as the only interesting one."""
    mapping = OD([('name', 'Zq_graph'), ('description', 'holds it.')])
    mapping.update(common_settings(lang))
    desc = ('description', 'is one.')
    props = OD([('zq', OD([('type', 'integer'), desc]))])
    if kind == 'setting':
        mapping[lang][SETTING[lang]] = name
        mapping['properties'] = props
    elif kind == 'graph':
        mapping['name'] = name
        mapping['properties'] = props
    elif kind == 'property':
        mapping['properties'] = OD([(name, props['zq'])])
    else:
        mapping['properties'] = OD([('zq', OD([('type', name), desc]))])
        mapping['classes' if kind == 'class' else 'embeds'] = [
            OD([('name', name), desc, ('properties', props)])]
    return mapping


def common_settings(lang):
    """Copy the settings."""
    return {lang: OD(SETTINGS[lang][lang])}


# the name of the module in each of the languages
SETTING = {'cpp': 'namespace', 'go': 'package', 'py': 'module_name'}
SETTINGS = {
    'cpp': {'cpp': OD([
        ('namespace', 'zq'), ('path_as', 'std::filesystem::path'),
        ('optional_as', 'std::optional'), ('datetime_library', 'ctime')])},
    'go': {'go': OD([('package', 'zq')])},
    'py': {'py': OD([('module_name', 'zq'), ('path_as', 'str'),
                     ('timezone_as', 'str')])},
}


def accepted(rec, job):
    """Decide which names are accepted on their own."""
    lang, kind, names = job
    with common.scratch() as root:
        for name in names:
            try:
                codegen.generate(single(lang, kind, name), lang, root / 'out',
                                 workdir=root)
            except codegen.GenerationError as err:
                if err.stage.endswith('crash'):
                    rec.violation(
                        'the generation crashed on the {} {!r}: {}'.format(
                            kind, name, err),
                        {'schema': single(lang, kind, name), 'lang': lang})
                rec.count('names_refused')
                continue
            rec.count('names_accepted')
            rec.note(kind, name)


NAMESPACES = set(
    'parse jsoncpp types graph value ref target errors Errors Error chrono '
    'experimental message json Json std date boost id instance class int '
    'export module kv it obj serialize detail internal optional string '
    'vector map regex filesystem int64_t size_t tm'.split())


def settings(lang, name):
    """Derive names of modules."""
    if lang == 'go':
        return {name, name.lower()}
    if lang == 'cpp':
        # The names of the C library would clash.
        return {name, 'zq::' + name, name + '::zq'} & {
            part for word in NAMESPACES
            for part in (word, 'zq::' + word, word + '::zq')
            # a known finding
            if not part.startswith('string')}
    found = {part for part in (name, name.lower())
             if part not in sys.modules
             and part not in sys.stdlib_module_names}
    return found | {'zq.' + name} | {part + '.zq' for part in found}


class Names:
    """Collect the accepted names."""

    def __init__(self, check, lang):
        self.check = check
        self.pools = {kind: [] for kind in (
            'graph', 'class', 'embed', 'property', 'setting')}
        jobs = []
        found = candidates(lang)
        for kind in self.pools:
            names = set()
            for name in found:
                if kind == 'setting':
                    names |= settings(lang, name)
                elif kind != 'property':
                    name = name[:1].upper() + name[1:]
                    if rules.COMPOSITE_NAME.fullmatch(name):
                        names.add(name)
                elif rules.PROPERTY_NAME.fullmatch(name):
                    names.add(name)
            names = sorted(names - {'main'})
            for start in range(0, len(names), 40):
                jobs.append((lang, kind, names[start:start + 40]))
        par.run(self, accepted, jobs)
        regular = {
            'graph': schemagen.GRAPH_NAMES, 'class': schemagen.CLASS_NAMES,
            'embed': schemagen.EMBED_NAMES, 'property': schemagen.PROP_NAMES,
            'setting': []}
        self.wild = {kind: list(pool) for kind, pool in self.pools.items()}
        for kind, pool in self.pools.items():
            self.pools[kind] = sorted(set(pool) | set(regular[kind]))

    @property
    def violations(self):
        """Pass on."""
        return self.check.violations

    def note(self, kind, name):
        """Add an accepted name."""
        self.pools[kind].append(name)

    def count(self, *args):
        """Pass on."""
        self.check.count(*args)

    def violation(self, *args):
        """Pass on."""
        self.check.violation(*args)


def systematic(prop, lang, names):
    """Generate schemas which together use each of the accepted names."""
    left = {}
    for kind in ('graph', 'class', 'embed', 'property', 'setting'):
        left[kind] = list(names.wild[kind])
        common.rng(prop, 'shuffle', kind).shuffle(left[kind])
    desc = ('description', 'is one of them.')

    def take(kind, count, refused=()):
        part = []
        for name in list(left[kind]):
            norm = name.lower().replace('_', '')
            if len(part) < count and norm not in refused:
                refused = set(refused) | {norm}
                part.append(name)
                left[kind].remove(name)
        return part

    def props(count, types, refused=()):
        result = OD()
        for number, name in enumerate(take('property', count, refused)):
            result[name] = OD([('type', types[number % len(types)]), desc])
            if number % 3 == 2:
                result[name]['optional'] = True
        return result

    while left['class'] or left['embed'] or left['property']:
        if len(left['class']) + len(left['embed']) + len(
                left['property']) < 30:
            # The last ones may clash with each other.
            break
        classes = take('class', 14)
        taken = {name.lower().replace('_', '') for name in classes}
        embeds = take('embed', 14, taken)
        taken |= {name.lower().replace('_', '') for name in embeds}
        graph = (take('graph', 1, taken) or ['Zq_graph'])[0]
        mapping = OD([('name', graph), ('description', 'holds them.')])
        mapping.update(common_settings(lang))
        if left['setting']:
            mapping[lang][SETTING[lang]] = left['setting'].pop()
        mapping['classes'] = [
            OD([('name', name), desc, ('plural', 'Zq{}s'.format(number)),
                ('properties', props(3, ['integer', name], {'id'}))])
            for number, name in enumerate(classes)]
        mapping['embeds'] = [
            OD([('name', name), desc,
                ('properties', props(2, ['string'] + classes[:1]))])
            for name in embeds]
        mapping['properties'] = props(
            3, ['boolean'] + classes[1:2] + embeds[:1])
        yield mapping


def schemas(prop, lang, names, total):
    """Generate adversarial schemas, the systematic ones first."""
    result = list(systematic(prop, lang, names))
    for idx in range(total):
        rng = common.rng(prop, 'schema', idx)
        style = idx % 4
        opts = schemagen.Opts(
            lang, depth=6 if style == 1 else 3,
            names=names.pools if style != 2 else None,
            texts=TEXTS if style != 3 else None)
        if style == 2:
            opts.props = (0, 2)
        mapping = schemagen.generate(rng, opts)
        mapping[lang][SETTING[lang]] = rng.choice(names.pools['setting'])
        result.append(mapping)
    return result


def bounds(lang):
    """
    Give schemas with extreme constraints of numbers and sizes.

    The language may refuse the ones which it can not represent.
    """
    values = [2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**64 - 1,
              2**64, 10**30]
    desc = ('description', 'is one of them.')
    for number, value in enumerate(values):
        for end in ('minimum', 'maximum'):
            cases = [
                OD([('type', 'integer'), desc, (end, value)]),
                OD([('type', 'integer'), desc, (end, -value),
                    ('exclusive_' + end, True)]),
                OD([('type', 'integer'), desc, (end, -value - 1)]),
                OD([('type', 'float'), desc, (end, value)]),
                OD([('type', 'array'), desc, (end + '_size', value),
                    ('values', OD([('type', 'integer')]))])]
            for kind, case in enumerate(cases):
                if (number + kind) % 3 == 1:
                    del case['description']
                    case = OD([('type', 'map'), desc, ('values', case)])
                place = (number + kind) % 4
                mapping = single(
                    lang, ('property', 'class', 'embed', 'property')[place],
                    'Zq_other' if place in (1, 2) else 'zq')
                if place in (1, 2):
                    comp = mapping[('classes', 'embeds')[place - 1]][0]
                else:
                    comp = mapping
                comp['properties'] = OD(
                    [('zq_bound', case)] + list(comp['properties'].items()))
                yield mapping
    mapping = single(lang, 'property', 'zq')
    for number, value in enumerate([
            1e308, -1e308, 5e-324, -5e-324, -0.0, 1e-7, 123456789.123456789,
            1e16, 1.7976931348623157e308, 0.1, 1e22, -1e23]):
        mapping['properties']['zq_min{}'.format(number)] = OD(
            [('type', 'float'), desc, ('minimum', value)])
        mapping['properties']['zq_max{}'.format(number)] = OD(
            [('type', 'float'), desc, ('maximum', value),
             ('exclusive_maximum', True)])
    yield mapping


INDENTIONS = ['', ' ', '  ', '   ', '\t', ' \t', '\t \t', ' ' * 13, '\n', ' \n',
              'x', '#', '//', '  x', '\xa0', '\u3000', '\x0c', ' \\', '|']


def indented(prop, lang):
    """Give schemas with all sorts of indentions, some to be refused."""
    for number, indention in enumerate(INDENTIONS):
        mapping = schemagen.generate(
            common.rng(prop, 'indention', number),
            schemagen.Opts(lang, classes=(1, 3), embeds=(1, 3)))
        mapping[lang]['indention'] = indention
        yield mapping


def usable(rec, mapping, lang, root):
    """Generate the code unless the schema is refused for the language."""
    try:
        codegen.generate(mapping, lang, root / 'out', workdir=root)
    except codegen.GenerationError as err:
        if err.stage in ('schema', 'language'):
            rec.count('refused')
            return False
        rec.violation('the generation failed: {}'.format(err),
                      {'schema': mapping})
        return False
    rec.count('accepted')
    return True


# -- P14 -------------------------------------------------------------------
def code_objects(code):
    """Iterate over the code and the nested codes."""
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from code_objects(const)


def undefined(module, code):
    """List the undefined names in the code."""
    result = []
    for part in code_objects(code):
        previous = None
        for instr in dis.get_instructions(part):
            if instr.opname == 'LOAD_GLOBAL' or (
                    instr.opname == 'LOAD_NAME'
                    and part.co_name == '<module>'):
                name = instr.argval
                if not hasattr(module, name) and not hasattr(builtins, name):
                    result.append(name)
                previous = getattr(module, name, None)
                continue
            if instr.opname in ('LOAD_ATTR', 'LOAD_METHOD') and isinstance(
                    previous, types.ModuleType):
                if not hasattr(previous, instr.argval):
                    result.append('{}.{}'.format(previous.__name__,
                                                 instr.argval))
                previous = getattr(previous, instr.argval, None)
                continue
            previous = None
    return sorted(set(result))


def hidden(module, code):
    """List the functions whose variables hide the top-level module."""
    top = module.name.split('.')[0]
    result = []
    for part in code_objects(code):
        instrs = list(dis.get_instructions(part))
        for first, second in zip(instrs, instrs[1:]):
            if first.opname.startswith('LOAD_FAST') and first.argval == top \
                    and second.opname in ('LOAD_ATTR', 'LOAD_METHOD') \
                    and hasattr(sys.modules[top], second.argval):
                result.append('{}.{} in {}'.format(
                    top, second.argval, part.co_name))
    return result


def construct(module, cls):
    """Construct an instance of the class and inspect it."""
    if '__init__' not in vars(cls):
        # a composite without properties
        return None if not vars(cls()) else 'there are attributes'
    signature = inspect.signature(cls.__init__)
    names = [name for name in signature.parameters][1:]
    values = {name: object() for name in names}
    instance = cls(**values)
    for name in names:
        if getattr(instance, name) is not values[name]:
            return 'the attribute {} does not hold the argument'.format(name)
    if set(vars(instance)) != set(names):
        return 'the attributes are {}'.format(sorted(vars(instance)))
    typing.get_type_hints(cls.__init__, vars(module), {})
    needed = {
        name: values[name] for name in names
        if signature.parameters[name].default is inspect.Parameter.empty
    }
    instance = cls(**needed)
    for name in names:
        got = getattr(instance, name)
        if name in needed:
            if got is not needed[name]:
                return 'the attribute {} is lost'.format(name)
        elif got is not None and len(got) != 0:
            return 'the default of the attribute {} is {!r}'.format(name, got)
        elif got is not None and got is getattr(cls(**needed), name):
            return 'the default of the attribute {} is shared'.format(name)
    return None


def arguments(schema, module):
    """Compare the arguments of the constructors with the schema."""
    for comp in ([schema.graph] + list(schema.classes.values()) +
                 list(schema.embeds.values())):
        cls = getattr(module, model.ucamel(comp.name), None)
        if cls is None:
            return 'there is no class for {}'.format(comp.name)
        needed = {prop.name.lower() for prop in comp.props
                  if not prop.optional}
        others = {prop.name.lower() for prop in comp.props if prop.optional}
        if comp.kind == 'class':
            needed.add('id')
        if comp is schema.graph:
            others |= {cls.registry for cls in schema.classes.values()}
        init = vars(cls).get('__init__')
        params = list(inspect.signature(init).parameters.values())[
            1:] if init else []
        if {param.name for param in params
                if param.default is inspect.Parameter.empty} != needed:
            return 'the mandatory arguments of {} are not {}'.format(
                cls.__name__, sorted(needed))
        if {param.name for param in params} != needed | others:
            return 'the arguments of {} are not {}'.format(
                cls.__name__, sorted(needed | others))
    return None


def py_item(rec, job):
    """Import the code of one schema and inspect it."""
    idx, mapping = job
    replay = {'schema': mapping}
    with common.scratch() as root:
        if not usable(rec, mapping, 'py', root):
            return
        sources = {}
        for path in sorted((root / 'out').iterdir()):
            source = path.read_bytes()
            sources[path.stem] = source
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('error')
                    compile(source, str(path.name), 'exec', dont_inherit=True)
            except (SyntaxError, ValueError, Warning) as err:
                rec.violation('{} does not compile: {!r}'.format(
                    path.name, err), replay)
                return
    rec.observe((idx, sorted(sources.items())), True)
    try:
        with pyrun.PyModule(mapping) as module:
            py_inspect(rec, module, sources, replay)
    except Exception as err:  # pylint: disable=broad-except
        rec.violation('the code cannot be used: {!r}'.format(err), replay)


def py_inspect(rec, module, sources, replay):
    """Inspect the imported modules."""
    for name, source in sources.items():
        part = {'__init__': module.base}.get(name) or getattr(module, name)
        code = compile(source, name, 'exec', dont_inherit=True)
        lost = undefined(part, code) + hidden(module, code)
        if lost:
            rec.violation('{}.py uses undefined names: {}'.format(
                name, lost), replay)
            return
        rec.count('files')
        for func_name, func in inspect.getmembers(part, inspect.isfunction):
            if func.__module__ != part.__name__:
                continue
            try:
                typing.get_type_hints(func, vars(part), {})
            except Exception as err:  # pylint: disable=broad-except
                rec.violation('the annotations of {} in {}.py: {!r}'.format(
                    func_name, name, err), replay)
                return
            rec.count('annotated_functions')
    problem = arguments(model.Schema(replay['schema']), module.base)
    if problem:
        rec.violation(problem, replay)
        return
    for _, cls in inspect.getmembers(module.base, inspect.isclass):
        if cls.__module__ != module.base.__name__:
            continue
        if not (cls.__doc__ or '').strip():
            rec.count('undocumented')
        problem = construct(module.base, cls)
        if problem:
            rec.violation('class {}: {}'.format(cls.__name__, problem), replay)
            return
        rec.count('constructed')


def p14():
    """Decide P14."""
    check = common.Check(
        'P14', 'a distinct set of generated Python files which was compiled, '
        'imported and whose classes were constructed')
    names = Names(check, 'py')
    check.require('accepted', 100)
    check.require('constructed', 500)
    check.require('names_accepted', 300)
    mappings = schemas('P14', 'py', names, common.scale(400, 4000))
    mappings += list(bounds('py')) + list(indented('P14', 'py'))
    par.run(check, py_item, enumerate(mappings))
    return check.finish()


# -- P15 -------------------------------------------------------------------
def p15():
    """Decide P15."""
    check = common.Check(
        'P15', 'a distinct schema whose generated Go code, tests included, '
        'was parsed, vetted and built')
    names = Names(check, 'go')
    check.require('accepted', 100)
    check.require('names_accepted', 300)
    mappings = schemas('P15', 'go', names, common.scale(160, 2400))
    mappings += bounds('go')
    for start in range(0, len(mappings), 480):
        go_batch(check, mappings[start:start + 480], start)
    return check.finish()


def go_batch(check, mappings, offset):
    """Build the packages of the schemas."""
    with common.scratch() as root:
        env = gorun.environment(root)
        src = root / 'gopath' / 'src'
        src.mkdir(parents=True)
        paths = {}
        for i, mapping in enumerate(mappings):
            with common.scratch() as sub:
                if not usable(check, mapping, 'go', sub):
                    continue
                path = 'batch/s{}/{}'.format(i, mapping['go']['package'])
                (src / path).parent.mkdir(parents=True)
                (sub / 'out').rename(src / path)
                paths[i] = path
        bad = {}
        for command in (['gofmt', '-l', '-e', 'batch'],
                        ['go', 'vet', '-tests=false', './batch/...'],
                        ['go', 'build', './batch/...']):
            proc = subprocess.run(
                command, cwd=str(src), env=env, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE, timeout=600)
            if proc.returncode == 0:
                check.count('passed_' + command[1 if command[0] == 'go'
                                                else 0])
                continue
            output = proc.stderr.decode('utf-8', 'replace')
            found = re.findall(r'.*batch/s([0-9]+)/.*', output)
            if not found:
                raise RuntimeError('{} failed:\n{}'.format(
                    command, output[:4000]))
            for number in set(found):
                bad.setdefault(int(number), '{}: {}'.format(
                    ' '.join(command[:2]), '\n'.join(
                        line for line in output.splitlines()
                        if 'batch/s{}/'.format(number) in line)[:1500]))
        for i in paths:
            check.observe((offset + i, repr(mappings[i])), True)
        for i, what in sorted(bad.items()):
            check.violation(what, {'schema': mappings[i]})


# -- P16 -------------------------------------------------------------------
def cpp_item(rec, job):
    """Compile each file of one schema on its own."""
    idx, mapping = job
    with common.scratch() as root:
        if not usable(rec, mapping, 'cpp', root):
            return
        compilers = ['clang++'] if idx % 3 else ['g++']
        if common.THOROUGH:
            compilers = ['clang++', 'g++']
        for compiler in compilers:
            std = cppmake.standards(mapping, idx)
            for name in cppmake.FILES:
                before = ''
                if name == 'types.h' and cppmake.lacks_string(mapping):
                    # a known finding
                    before = '#include <string>\n'
                problem = cppmake.check(
                    compiler, root / 'out', name, std, before)
                rec.count('compiled_' + compiler)
                if problem:
                    rec.violation('{} -std={} {}: {}'.format(
                        compiler, std, name, problem), {'schema': mapping})
                    return
            rec.count('passed_' + std)
        rec.observe((idx, repr(mapping)), True)


HIDEABLE = [
    {'type': 'boolean'}, {'type': 'integer'}, {'type': 'float'},
    {'type': 'string'}, {'type': 'path'}, {'type': 'date'}, {'type': 'time'},
    {'type': 'datetime'}, {'type': 'time_zone'}, {'type': 'duration'},
    {'type': 'array', 'values': {'type': 'integer'}},
    {'type': 'map', 'values': {'type': 'datetime'}}, {'type': 'Zq_class'},
    {'type': 'Zq_embed'}]


def hiding(names, library):
    """Give a schema where fields of all the types follow each of the names."""
    mapping = single('cpp', 'class', 'Zq_class')
    mapping['cpp']['datetime_library'] = library
    if mapping['cpp']['optional_as'] == 'std::optional':
        mapping['cpp']['path_as'] = 'std::filesystem::path'
    desc = ('description', 'is one.')
    mapping['embeds'] = [OD([
        ('name', 'Zq_embed'), desc,
        ('properties', OD([('zq', OD([('type', 'integer'), desc]))]))])]
    for number, name in enumerate(names):
        props = OD()
        for place, a_type in enumerate(HIDEABLE):
            for suffix, optional in (('a', False), ('b', True)):
                prop = OD([('type', a_type['type']), desc])
                prop.update(a_type)
                if optional:
                    prop['optional'] = True
                props['zq{}{}'.format(place, suffix)] = prop
        # The name is declared first in turn with each of the types.
        props = OD([(name, OD(props['zq{}a'.format(number % len(HIDEABLE))]))]
                   + list(props.items()))
        mapping['embeds'].append(OD([
            ('name', 'Zq_embed_{}'.format(number)), desc,
            ('properties', props)]))
    return mapping


def cpp_hiding(rec, job):
    """Compile the header where the names may hide what follows."""
    idx, names, library = job
    mapping = hiding(names, library)
    with common.scratch() as root:
        if not usable(rec, mapping, 'cpp', root):
            # The names were accepted one by one.
            rec.violation('accepted names are refused together',
                          {'schema': mapping})
            return
        for compiler in ('g++', 'clang++'):
            problem = cppmake.check(
                compiler, root / 'out', 'types.h', 'c++17', '')
            rec.count('compiled_' + compiler)
            if problem:
                rec.violation('{} types.h: {}'.format(compiler, problem),
                              {'schema': mapping})
                return
        rec.count('names_before_types', len(names))
        rec.observe(('hiding', idx, library), True)


def cpp_link(rec, job):
    """Link the code of two schemas whose headers are included twice."""
    first, second = job
    with common.scratch() as root:
        for name, mapping in (('one', first), ('two', second)):
            (root / name).mkdir()
            if not usable(rec, mapping, 'cpp', root / name):
                return
        problem = cppmake.link(root, ['one', 'two'])
        rec.observe(('link', repr(first), repr(second)), True)
        if problem:
            rec.violation(problem, {'schemas': [first, second]})
            return
        rec.count('linked')


def cpp_findings(check):
    """Probe the listed findings."""
    mapping = single('cpp', 'class', 'Zq_class')
    with common.scratch() as root:
        mapping['cpp']['optional_as'] = 'boost::optional'
        codegen.generate(mapping, 'cpp', root / 'out', workdir=root)
        problem = cppmake.check('clang++', root / 'out', 'jsoncpp.cpp',
                                'c++11')
        check.finding('make-unique', problem is not None,
                      'jsoncpp.cpp -std=c++11: {}'.format(problem),
                      {'schema': mapping})
        if problem and "'make_unique'" not in problem:
            check.violation('jsoncpp.cpp -std=c++11: {}'.format(problem),
                            {'schema': mapping})
    mapping = single('cpp', 'property', 'zq')
    mapping['properties']['zq']['type'] = 'time_zone'
    mapping['cpp'].update(namespace='string', datetime_library='date.h')
    with common.scratch() as root:
        codegen.generate(mapping, 'cpp', root / 'out', workdir=root)
        problem = cppmake.check('g++', root / 'out', 'jsoncpp.cpp', 'c++17')
        check.finding('cpp-namespace-datelib', problem is not None,
                      'jsoncpp.cpp: {}'.format(problem), {'schema': mapping})
        if problem and 'ambiguous' not in problem:
            check.violation('jsoncpp.cpp: {}'.format(problem),
                            {'schema': mapping})
    mapping = single('cpp', 'property', 'zq')
    mapping['properties']['zq'].update(
        [('type', 'map'), ('values', OD([('type', 'integer')]))])
    with common.scratch() as root:
        codegen.generate(mapping, 'cpp', root / 'out', workdir=root)
        problem = cppmake.check('clang++', root / 'out', 'types.h', 'c++17')
        check.finding('map-without-string', problem is not None,
                      'types.h: {}'.format(problem), {'schema': mapping})
        if problem and "'string'" not in problem:
            check.violation('types.h: {}'.format(problem),
                            {'schema': mapping})


def p16():
    """Decide P16."""
    check = common.Check(
        'P16', 'a distinct schema whose generated C++ files were compiled one '
        'by one, or a pair of such schemas linked together')
    names = Names(check, 'cpp')
    check.require('accepted', 40)
    check.require('names_accepted', 300)
    check.require('linked', 1)
    mappings = schemas('P16', 'cpp', names, common.scale(48, 800))
    mappings += list(bounds('cpp')) + list(indented('P16', 'cpp'))
    par.run(check, cpp_item, enumerate(mappings))
    jobs = []
    found = names.wild['property']
    for start in range(0, len(found), 50):
        for library in ('ctime', 'date.h')[start // 50 % 2:][
                :2 if common.THOROUGH else 1]:
            jobs.append((start, found[start:start + 50], library))
    check.require('names_before_types', 100)
    par.run(check, cpp_hiding, jobs)
    cpp_findings(check)
    pairs = []
    for number in range(common.scale(4, 16)):
        pair = []
        for part in range(2):
            mapping = schemagen.generate(
                common.rng('P16', 'link', number, part),
                schemagen.Opts('cpp', classes=(1, 3), embeds=(1, 2)))
            mapping['cpp']['namespace'] = 'ns{}'.format(part)
            mapping['name'] = 'Some_graph'
            pair.append(mapping)
        pairs.append(tuple(pair))
    par.run(check, cpp_link, pairs)
    return check.finish()
