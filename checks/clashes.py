"""Check the clashes of the names in the target languages (P17)."""
import builtins
import collections
import json
import keyword
import re

from vlib import codegen, common, model, par, rules

OD = collections.OrderedDict
LANGS = ('py', 'go', 'cpp')

CPP_KEYWORDS = set(
    'alignas alignof and and_eq asm auto bitand bitor bool break case catch '
    'char char16_t char32_t class compl const constexpr const_cast continue '
    'decltype default delete do double dynamic_cast else enum explicit export '
    'extern false float for friend goto if inline int long mutable namespace '
    'new noexcept not not_eq nullptr operator or or_eq private protected '
    'public register reinterpret_cast return short signed sizeof static '
    'static_assert static_cast struct switch template this thread_local throw '
    'true try typedef typeid typename union unsigned using virtual void '
    'volatile wchar_t while xor xor_eq'.split())
CPP_LATER = set(
    'atomic_cancel atomic_commit atomic_noexcept char8_t concept consteval '
    'constinit co_await co_return co_yield import module requires '
    'synchronized reflexpr'.split())
CPP_LIBRARIES = {'Json', 'boost', 'date', 'std'}
PY_GLOBALS = set(
    'collections datetime pathlib pytz re typing Error Errors err errors '
    'graph id instance_value ref registry_value target value'.split())
PY_KEYWORDS = set(keyword.kwlist)
PY_LATER = {'match', 'case', 'type', '_', 'print', 'exec'}
GO_KEYWORDS = set(
    'break default func interface select case defer go map struct chan else '
    'goto package switch const fallthrough if range type continue for import '
    'return var'.split())


class Names:
    """Find the clashes of a schema in a language."""

    def __init__(self, lang, mapping):
        self.lang = lang
        self.mapping = mapping
        self.clashes = []
        self.unsure = False

    def field(self, name):
        """Convert the name of a property or a registry."""
        return model.ucamel(name) if self.lang == 'go' else name.lower()

    def clash(self, kind, *names):
        """Record a clash."""
        self.clashes.append((kind, names))

    def fields(self, owner, entries, is_class):
        """Check the fields of one composite."""
        seen = {}
        for what, name in entries:
            ident = self.field(name)
            if ident in seen:
                first = seen[ident]
                self.clash('{}-{}-{}'.format(owner, *sorted(
                    [first[0], what])), name, first[1])
            else:
                seen[ident] = (what, name)
            if self.lang == 'py':
                if ident in PY_KEYWORDS or ident == 'self':
                    self.clash('{}-reserved-{}'.format(owner, what), name)
                elif ident in PY_LATER:
                    self.unsure = True
                if owner == 'graph' and ident == 'collections' \
                        and self.mapping.get('classes'):
                    self.clash('graph-shadow', name)
            elif self.lang == 'cpp':
                if ident in CPP_KEYWORDS:
                    self.clash('{}-reserved-{}'.format(owner, what), name)
                elif ident in CPP_LATER:
                    self.unsure = True
            if is_class and ident == ('ID' if self.lang == 'go' else 'id'):
                self.clash('class-id', name)

    def module(self, comps):
        """Check the name of the module."""
        if self.lang == 'go':
            package = self.mapping['go']['package']
            if package in GO_KEYWORDS:
                self.clash('module-reserved', package)
            return
        if self.lang == 'cpp':
            for part in self.mapping['cpp']['namespace'].split('::'):
                if part in CPP_KEYWORDS:
                    self.clash('module-reserved', part)
                elif part in CPP_LIBRARIES:
                    self.clash('module-library', part)
                elif part in CPP_LATER:
                    self.unsure = True
            return
        parts = self.mapping['py']['module_name'].split('.')
        for part in parts:
            if part in PY_KEYWORDS:
                self.clash('module-reserved', part)
            elif part in PY_LATER:
                self.unsure = True
        hidden = PY_GLOBALS | set(dir(builtins))
        for _, comp in comps:
            lower = comp['name'].lower()
            hidden |= {lower + '_from', 'target_' + lower,
                       'serialize_' + lower, 'placeholder_' + lower}
        for cls in self.mapping.get('classes', []):
            many = cls.get('plural') or model.plural(cls['name'])
            hidden.add(many.lower() + '_registry')
        if parts[0] in hidden or re.fullmatch(
                '(i|item|key|target|target_item|value)_[0-9]+', parts[0]):
            self.clash('module-hidden', parts[0])

    def find(self):
        """Find the clashes."""
        mapping = self.mapping
        comps = [('graph', mapping)]
        comps += [('class', comp) for comp in mapping.get('classes', [])]
        comps += [('embed', comp) for comp in mapping.get('embeds', [])]
        seen, functions, patterns = {}, {}, {}
        reserved = set()
        if self.lang == 'go':
            reserved = {'Error', 'Errors', 'NewErrors'}
            for _, comp in comps:
                name = model.ucamel(comp['name'])
                reserved |= {name + 'FromJSONable', name + 'ToJSONable'}
        for kind, comp in comps:
            ident = model.ucamel(comp['name'])
            if ident in seen:
                self.clash('types-{}-{}'.format(*sorted(
                    [seen[ident][0], kind])), comp['name'], seen[ident][1])
            else:
                seen[ident] = (kind, comp['name'])
            if ident in reserved or (self.lang == 'py'
                                     and ident in PY_KEYWORDS):
                self.clash('type-reserved', comp['name'])
            lower = comp['name'].lower()
            if self.lang == 'py' and lower in functions \
                    and functions[lower][1] != ident:
                self.clash('functions', comp['name'], functions[lower][0])
            if self.lang == 'cpp':
                if lower in CPP_KEYWORDS:
                    self.clash('variable-reserved', comp['name'])
                elif lower in CPP_LATER:
                    self.unsure = True
                if kind == 'class' and 'id_pattern' in comp:
                    other = patterns.setdefault(lower, (comp['name'], ident))
                    if other[1] != ident:
                        self.clash('patterns', comp['name'], other[0])
                if ident in CPP_LIBRARIES:
                    self.clash('library', comp['name'])
            functions.setdefault(lower, (comp['name'], ident))
        self.module(comps)
        for kind, comp in comps:
            entries = [('property', name)
                       for name in comp.get('properties', {})]
            if kind == 'graph':
                entries += [
                    ('registry', cls.get('plural') or model.plural(
                        cls['name'])) for cls in mapping.get('classes', [])
                ]
            self.fields(kind, entries, kind == 'class')
        return self


def prop(rng, classes):
    """Generate a property."""
    result = OD([('type', rng.choice(['integer', 'string'] + classes)),
                 ('description', 'gives it.')])
    if rng.random() < 0.2:
        result['optional'] = True
    return result


WORDS = ['a', 'url', 'id', 'b', 'x', 'item']


def word(rng, upper):
    """Generate a name from a tiny vocabulary, so that names clash."""
    parts = [rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    parts = [rng.choice([part, part, part[:1].upper() + part[1:],
                         part.upper()]) for part in parts]
    text = parts[0]
    for part in parts[1:]:
        text += rng.choice(['_', '_', '', '__']) + part
    if upper:
        text = text[:1].upper() + text[1:]
    return text


SPECIAL_TYPES = ['Json', 'Std', 'Static', 'Int', 'Co_await', 'CONST', 'Namespace', 'None', 'True', 'False', 'Error', 'Errors', 'New_errors',
                 'NewErrors', 'Class', 'Func', 'String', 'Collection', 'Self',
                 'Async', 'Type', 'Case', 'Operator', 'Import', 'Errors_x',
                 'A_from_JSONable', 'A_to_JSONable', 'AFromJSONable',
                 'URL_fromJSONable', 'A_FromJSONable']
SPECIAL_PLURALS = ['Class', 'Self', 'Errors', 'Func', 'Collections', 'Def',
                   'Delete', 'Range', 'Async', 'Template', 'None', 'Lambda']
SPECIAL_PROPS = sorted(
    {'self', 'Self', 'id', 'ID', 'Id', 'iD', 'collections', 'Collections',
     'errors', 'value', 'ref', 'Class', 'CLASS', 'Func'}
    | PY_KEYWORDS | CPP_KEYWORDS | GO_KEYWORDS)


MODULE_PARTS = sorted(
    {name for name in SPECIAL_PROPS if rules.PROPERTY_NAME.fullmatch(name)}
    | CPP_LIBRARIES | PY_GLOBALS | set(GO_KEYWORDS) | set(
        'a_from url_from serialize_a target_item placeholder_b items_registry '
        'item_0 value_12 target_3 targets target_x i key iter print json '
        'Jsonx stdlib dates as_registry'.split()))


def random_schema(rng):
    """Generate a schema whose names are close to each other."""
    def type_name():
        return rng.choice(SPECIAL_TYPES) if rng.random() < 0.08 \
            else word(rng, True)

    def props(high, classes):
        result = OD()
        for _ in range(rng.randint(0, high)):
            name = rng.choice(SPECIAL_PROPS) if rng.random() < 0.12 \
                else word(rng, False)
            result[name] = prop(rng, classes)
        return result

    mapping = OD([('name', type_name()), ('description', 'defines it.')])
    mapping['cpp'] = OD([
        ('namespace', 'some_ns'), ('path_as', 'std::filesystem::path'),
        ('optional_as', 'std::optional'), ('datetime_library', 'ctime')])
    mapping['go'] = OD([('package', 'some_pkg')])
    mapping['py'] = OD([('module_name', 'some_mod'), ('path_as', 'str'),
                        ('timezone_as', 'str')])
    if rng.random() < 0.1:
        part = rng.choice(MODULE_PARTS)
        mapping['cpp']['namespace'] = rng.choice(
            ['{}', 'some::{}', '{}::x']).format(part)
        mapping['go']['package'] = part
        mapping['py']['module_name'] = rng.choice(
            ['{}', 'some.{}', '{}.x']).format(part)
    names = []
    for _ in range(rng.randint(0, 3)):
        names.append(type_name())
    embeds = [type_name() for _ in range(rng.randint(0, 2))]
    result = props(4, names)
    if result:
        mapping['properties'] = result
    mapping['classes'] = []
    for name in names:
        cls = OD([('name', name), ('description', 'defines it.')])
        pick = rng.random()
        if pick < 0.1:
            cls['plural'] = rng.choice(SPECIAL_PLURALS)
        elif pick < 0.5:
            cls['plural'] = word(rng, True)
        if rng.random() < 0.3:
            cls['id_pattern'] = '^[a-z]+$'
        sub = props(3, names)
        if sub:
            cls['properties'] = sub
        mapping['classes'].append(cls)
    mapping['embeds'] = []
    for name in embeds:
        embed = OD([('name', name), ('description', 'defines it.')])
        sub = props(3, names)
        if sub:
            embed['properties'] = sub
        mapping['embeds'].append(embed)
    for key in ('classes', 'embeds'):
        if not mapping[key] and rng.random() < 0.7:
            del mapping[key]
    return mapping


def judge_names(rec, lang, mapping, root):
    """Generate the code and compare with the clashes."""
    found = Names(lang, mapping).find()
    outdir = root / 'out'
    try:
        codegen.generate(mapping, lang, outdir, root)
        stage, message = None, ''
    except codegen.GenerationError as err:
        stage, message = err.stage, err.message
    written = sorted(pth.name for pth in outdir.iterdir()) \
        if outdir.exists() else []
    for pth in (outdir.iterdir() if outdir.exists() else []):
        pth.unlink()
    replay = {'schema': mapping, 'language': lang}
    rec.observe((lang, json.dumps(mapping)), True)
    for kind, _ in found.clashes:
        rec.count('{}:{}'.format(lang, kind))
    if stage not in (None, 'language'):
        rec.violation('{}: {} {}'.format(lang, stage, message), replay)
        return
    if found.clashes:
        rec.count('refused_' + lang)
        if stage is None:
            rec.violation('{}: the schema was accepted despite the clashes '
                          '{}'.format(lang, found.clashes[:4]), replay)
            return
        if written:
            rec.violation('{}: refused, but wrote {}'.format(lang, written),
                          replay)
            return
        if len(found.clashes) == 1:
            kind, names = found.clashes[0]
            wanted = set()
            for name in names:
                wanted |= {name, model.ucamel(name), name.lower()}
            if not any(re.search(r'(?<!\w){}(?!\w)'.format(re.escape(text)),
                                 message) for text in wanted):
                rec.violation('{}: the message {!r} does not name {}'.format(
                    lang, message, names), replay)
            elif str(root / 'schema.json') + '#' not in message:
                rec.violation('{}: the message {!r} has no reference'.format(
                    lang, message), replay)
            else:
                rec.count('named_' + lang)
    elif found.unsure:
        rec.count('unspecified')
    else:
        rec.count('accepted_' + lang)
        if stage is not None:
            rec.violation('{}: refused without a clash: {}'.format(
                lang, message), replay)
        elif not written:
            rec.violation('{}: nothing was written'.format(lang), replay)


def p17_item(rec, idx):
    """Judge random schemas with close names."""
    rng = common.rng('P17', idx)
    done = 0
    with common.scratch() as root:
        while done < common.scale(60, 300):
            mapping = random_schema(rng)
            verdict = rules.judge(mapping)
            if verdict.broken or verdict.unsure:
                continue
            done += 1
            for lang in LANGS:
                judge_names(rec, lang, mapping, root)


def base():
    """Give a schema without clashes."""
    mapping = OD([('name', 'Some_graph'), ('description', 'defines it.')])
    mapping['cpp'] = OD([
        ('namespace', 'some_ns'), ('path_as', 'std::filesystem::path'),
        ('optional_as', 'std::optional'), ('datetime_library', 'ctime')])
    mapping['go'] = OD([('package', 'some_pkg')])
    mapping['py'] = OD([('module_name', 'some_mod'), ('path_as', 'str'),
                        ('timezone_as', 'str')])
    integer = OD([('type', 'integer'), ('description', 'gives it.')])
    mapping['properties'] = OD([('first_value', integer)])
    mapping['classes'] = [
        OD([('name', name), ('description', 'defines it.'),
            ('properties', OD([('first_value', integer)]))])
        for name in ('Some_class', 'Other_class')]
    mapping['embeds'] = [
        OD([('name', name), ('description', 'defines it.'),
            ('properties', OD([('first_value', integer)]))])
        for name in ('Some_embed', 'Other_embed')]
    return mapping


def systematic():
    """Give schemas with one word or one clash in each place."""
    integer = OD([('type', 'integer'), ('description', 'gives it.')])
    words = sorted(
        {word for name in SPECIAL_PROPS for word in (name, name.upper(),
                                                     name.capitalize())})
    words = [name for name in words
             if rules.PROPERTY_NAME.fullmatch(name)]
    same = ['First_value', 'FIRST_VALUE', 'firstValue', 'first_Value',
            'first__value', 'FirstValue', 'first_values', 'irst_value']
    for name in words + same:
        for place in ('graph', 'class', 'embed'):
            mapping = base()
            target = {'graph': mapping, 'class': mapping['classes'][1],
                      'embed': mapping['embeds'][1]}[place]
            target['properties'] = OD(target['properties'])
            target['properties'][name] = integer
            yield mapping
    for name in words:
        if name[:1].isupper():
            mapping = base()
            mapping['classes'][1]['plural'] = name
            yield mapping
            for place in ('classes', 'embeds'):
                mapping = base()
                mapping[place][1]['name'] = name
                yield mapping
            mapping = base()
            mapping['name'] = name
            yield mapping
    for name in SPECIAL_TYPES + [
            'SomeClass', 'Some_Class', 'SOME_class', 'Someclass', 'SomeEmbed',
            'Some_Embed', 'SOME_EMBED', 'SomeGraph', 'Some_Graph',
            'Some__graph', 'SOME_graph', 'Somegraph', 'Some_class_ToJSONable',
            'Some_class_from_JSONable', 'Some_embed_to_JSONable',
            'Some_embedFromJSONable', 'Some_graph_to_JSONable',
            'SomeGraphFromJSONable', 'Some_class_from', 'Placeholder']:
        for place in (('classes', 1), ('embeds', 1), ('embeds', 0)):
            mapping = base()
            mapping[place[0]][place[1]]['name'] = name
            if place[0] == 'classes':
                mapping['classes'][1]['plural'] = 'Unrelated_ones'
            yield mapping
        mapping = base()
        mapping['name'] = name
        yield mapping
    for part in MODULE_PARTS + ['some_class_from', 'some_classes_registry',
                                'target_some_graph', 'serialize_some_embed',
                                'placeholder_other_class', 'target_item_7']:
        for form in (('{}', '{}', '{}'), ('some::{}', 'some_{}', 'some.{}'),
                     ('{}::some', '{}_some', '{}.some')):
            mapping = base()
            mapping['cpp']['namespace'] = form[0].format(part)
            mapping['go']['package'] = form[1].format(part)
            mapping['py']['module_name'] = form[2].format(part)
            yield mapping
    for plural in ['First_value', 'FirstValue', 'First_Value', 'FIRST_VALUE',
                   'Some_Classes', 'SomeClasses', 'Some_classes',
                   'SOME_classes', 'Some__classes', 'First__value']:
        mapping = base()
        mapping['classes'][1]['plural'] = plural
        yield mapping


def p17_systematic(rec, part):
    """Judge a part of the systematic schemas."""
    with common.scratch() as root:
        for number, mapping in enumerate(systematic()):
            if number % 16 != part:
                continue
            verdict = rules.judge(mapping)
            if verdict.broken or verdict.unsure:
                rec.count('core')
                continue
            for lang in LANGS:
                judge_names(rec, lang, mapping, root)
                rec.count('systematic')


def p17():
    """Decide P17."""
    check = common.Check(
        'P17', 'a distinct (language, schema) pair whose names were compared '
        'by an independent conversion')
    for lang in LANGS:
        check.require('refused_' + lang, 150)
        check.require('accepted_' + lang, 300)
        check.require('named_' + lang, 100)
        for kind in ['types-class-class', 'types-class-embed',
                     'types-embed-embed', 'types-class-graph',
                     'types-embed-graph', 'graph-property-property',
                     'graph-property-registry', 'class-property-property',
                     'embed-property-property', 'class-id']:
            check.require('{}:{}'.format(lang, kind), 1)
    check.require('go:graph-registry-registry', 1)
    for lang in ('py', 'cpp'):
        for kind in ['graph-reserved-property', 'class-reserved-property',
                     'embed-reserved-property', 'graph-reserved-registry']:
            check.require('{}:{}'.format(lang, kind), 3)
        check.require('{}:module-reserved'.format(lang), 10)
    check.require('go:module-reserved', 10)
    check.require('py:module-hidden', 10)
    check.require('cpp:module-library', 4)
    check.require('cpp:library', 1)
    check.require('py:type-reserved', 3)
    check.require('go:type-reserved', 3)
    par.run(check, p17_systematic, range(16))
    par.run(check, p17_item, range(common.scale(16, 160)))
    return check.finish()
