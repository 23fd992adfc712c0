"""Compare the code of schemas which differ in cosmetics only (P23)."""
import copy
import json
import pathlib

from checks import trichecks
from vlib import common, docgen, model, schemagen, tri

NEW_COMPOSITES = [
    'Renamed', 'Other_name', 'URL_box', 'Thing_2', 'Alpha', 'Zulu_unit',
    'MyType', 'Some_IO', 'Knot', 'Quark', 'Valley', 'Echo_1', 'Wisp',
    'Wolf', 'Leaf_item', 'Bravo', 'HTTP_item', 'Delta_force', 'Ox', 'Hero']
NEW_PROPS = [
    'alpha', 'beta_1', 'gammaRay', 'Delta', 'some_XML', 'e2e', 'omega_URL',
    'last_one', 'zz', 'kilo', 'lima_ID', 'm', 'november', 'OscarWilde',
    'papa_1', 'quebec', 'romeo', 's_t_u', 'tango', 'UTC_offset', 'victor']


def types_of(mapping):
    """Iterate over all the type definitions of the schema."""
    comps = [mapping] + mapping.get('classes', []) + mapping.get('embeds', [])
    for comp in comps:
        for a_type in comp.get('properties', {}).values():
            while a_type is not None:
                yield a_type
                a_type = a_type.get('values')


def comps_of(mapping):
    """List the composites."""
    return [mapping] + mapping.get('classes', []) + mapping.get('embeds', [])


def shuffled(rng, mapping):
    """Shuffle the keys of the mapping."""
    keys = list(mapping)
    rng.shuffle(keys)
    return {key: mapping[key] for key in keys}


def descriptions(rng, mapping):
    """Change the descriptions."""
    for comp in comps_of(mapping):
        comp['description'] = rng.choice(schemagen.DESCRIPTIONS)
        for prop in comp.get('properties', {}).values():
            prop['description'] = rng.choice(schemagen.PROP_DESCRIPTIONS)


def indention(rng, mapping):
    """Change the indention."""
    for lang in ('py', 'cpp'):
        choices = ['  ', '    ', '\t', ' ', '        ', '\t ']
        if lang == 'cpp':
            choices += ['']
        old = mapping[lang].get('indention')
        mapping[lang]['indention'] = rng.choice(
            [got for got in choices if got != old])


def modules(rng, mapping):
    """Change the names of the modules, packages and namespaces."""
    mapping['py']['module_name'] = rng.choice(
        ['other.mod', 'm', 'some_graph.a.b_2', 'graphs', 'Deep.Er'])
    mapping['go']['package'] = rng.choice(
        ['other', 'm', 'graphs', 'some_pkg', 'geo2'])
    mapping['cpp']['namespace'] = rng.choice(
        ['other', 'm', 'some::other', 'a::b::c::d', 'Graphs::v2'])


def representations(rng, mapping):
    """Change how the values are represented."""
    cpp, py = mapping['cpp'], mapping['py']
    cpp['path_as'] = rng.choice(
        ['std::filesystem::path', 'boost::filesystem::path'])
    cpp['optional_as'] = rng.choice(
        ['std::optional', 'boost::optional', 'std::experimental::optional'])
    formats = [a_type.get('format', '') for a_type in types_of(mapping)]
    if not any('%p' in fmt or '%I' in fmt for fmt in formats):
        cpp['datetime_library'] = rng.choice(['ctime', 'date.h'])
    py['path_as'] = {'str': 'pathlib.Path',
                     'pathlib.Path': 'str'}[py['path_as']]
    if rng.random() < 0.7:
        py['timezone_as'] = {'str': 'pytz.timezone',
                             'pytz.timezone': 'str'}[py['timezone_as']]


def fix_names(mapping):
    """State all the names in the documents explicitly."""
    for cls in mapping.get('classes', []):
        if 'plural' not in cls:
            rest = dict(cls)
            cls.clear()
            cls['name'] = rest.pop('name')
            cls['plural'] = model.plural(cls['name'])
            cls.update(rest)
    for comp in comps_of(mapping):
        for name, prop in comp.get('properties', {}).items():
            prop.setdefault('json', name)


def renaming(rng, mapping):
    """Rename the composites and the properties."""
    fix_names(mapping)
    comps = comps_of(mapping)
    names = rng.sample(NEW_COMPOSITES, len(comps))
    new = {comp['name']: name for comp, name in zip(comps, names)}
    for comp in comps:
        comp['name'] = new[comp['name']]
        props = comp.get('properties')
        if props:
            fresh = iter(rng.sample(NEW_PROPS, len(props)))
            comp['properties'] = {next(fresh): prop for prop in props.values()}
    for a_type in types_of(mapping):
        a_type['type'] = new.get(a_type['type'], a_type['type'])


def reordering(rng, mapping):
    """Reorder the definitions."""
    for key in ('classes', 'embeds'):
        if key in mapping:
            rng.shuffle(mapping[key])
    for comp in comps_of(mapping):
        if 'properties' in comp:
            comp['properties'] = shuffled(rng, comp['properties'])


def defaults(rng, mapping):
    """State the defaults."""
    for a_type in types_of(mapping):
        name = a_type['type']
        if name in ('integer', 'float'):
            for which in ('minimum', 'maximum'):
                if which in a_type and rng.random() < 0.8:
                    a_type.setdefault('exclusive_' + which, False)
        if name == 'array' and rng.random() < 0.8:
            a_type.setdefault('minimum_size', 0)
        if name in ('date', 'time', 'datetime') and rng.random() < 0.8:
            a_type.setdefault('format', {
                'date': '%Y-%m-%d', 'time': '%H:%M:%S',
                'datetime': '%Y-%m-%dT%H:%M:%SZ'}[name])
    for comp in comps_of(mapping):
        for prop in comp.get('properties', {}).values():
            prop.setdefault('optional', False)
    if rng.random() < 0.8:
        fix_names(mapping)
    mapping['py'].setdefault('indention', ' ' * 4)
    mapping['cpp'].setdefault('indention', ' ' * 2)


TEXT_KEPT = [descriptions, indention, modules, reordering, defaults]
CHANGES = TEXT_KEPT + [representations, renaming]


def vary(rng, mapping, number):
    """Give a variant of the schema and the names of the changes."""
    chosen = [CHANGES[number % len(CHANGES)]]
    chosen += [change for change in CHANGES
               if change not in chosen and rng.random() < 0.3]
    # Renaming and the defaults depend on the names stated so far.
    chosen.sort(key=CHANGES.index)
    variant = copy.deepcopy(mapping)
    for change in chosen:
        change(rng, variant)
    return json.loads(json.dumps(variant)), chosen


def verdict(schema, lang, doc):
    """List the expected broken places; None if left to the language."""
    try:
        got = model.Judge(schema, lang).judge(doc, 'ref')
    except model.Grey:
        return None
    if any(err.code == 'time-range' for err in got):
        return None
    return sorted(err.ref for err in got)


def normalized(docs, out):
    """Normalize the paths as the path objects do."""
    out = copy.deepcopy(out)
    for container, key, a_type in docs.sites(out):
        if a_type['type'] == 'path':
            container[key] = str(pathlib.PurePosixPath(container[key]))
    return out


def outcome(docs, res, messages):
    """Give what has to be the same."""
    errors = sorted(res.errors) if messages else res.refs
    out = res.out
    if res.lang == 'py' and not messages and out is not None:
        out = normalized(docs, out)
    return {'errors': errors, 'out': out,
            'trouble': None if not res.trouble else 'trouble'}


def item(rec, pair):
    """Compare the pair of schemas."""
    # pylint: disable=too-many-locals
    local, idx = pair
    if local % 2:
        return None
    number = idx // 2
    rng = common.rng('P23', 'faults', number)
    chosen = CHOSEN[number]
    messages = all(change in TEXT_KEPT for change in chosen)
    names = [change.__name__ for change in chosen]
    with trichecks.CURRENT.session(rec, local) as one:
        if one.py is not None:
            one.py.detach()
        with trichecks.CURRENT.session(rec, local + 1) as other:
            for lang in tri.LANGS:
                if lang not in one.langs or lang not in other.langs:
                    continue
                docs = docgen.Docs(common.rng('P23', lang, number),
                                   one.schema, lang)
                for turn in range(common.scale(24, 60)):
                    doc = docs.valid()
                    if turn % 2:
                        doc = docs.mutate(doc, rng.choice([1, 1, 2, 3]))
                    elif turn % 8 == 6:
                        doc = docs.with_unknown(doc)
                    expected = verdict(one.schema, lang, doc)
                    if expected is None or expected != verdict(
                            other.schema, lang, doc):
                        rec.count('left_to_the_setting')
                        continue
                    replay = {'schema': one.mapping, 'variant': other.mapping,
                              'language': lang, 'document': doc}
                    first = one.request(lang, copy.deepcopy(doc))
                    second = other.request(lang, copy.deepcopy(doc))
                    if first.panic_known or second.panic_known:
                        # Listed for P05 and P08: ask for the first error only.
                        first = one.request(lang, copy.deepcopy(doc), cap=1)
                        second = other.request(lang, copy.deepcopy(doc), cap=1)
                        first.errors = first.errors and [('some', 'error')]
                        second.errors = second.errors and [('some', 'error')]
                    rec.observe((number, lang, json.dumps(doc)), len(doc) > 0)
                    if outcome(docs, first, messages) != outcome(
                            docs, second, messages):
                        return rec.violation(
                            '{}: {} changed the outcome: {!r} {!r}; {!r} '
                            '{!r}; {}'.format(
                                lang, ', '.join(names), first.trouble,
                                first.errors[:3], second.trouble,
                                second.errors[:3],
                                model.differs(first.out, second.out)), replay)
                    rec.count('rejected_by_both' if first.errors
                              else 'accepted_by_both')
                    rec.count('compared_' + lang)
                    for name in names:
                        rec.count('compared_with_' + name)
    return None


CHOSEN = []


def p23():
    """Decide P23."""
    check = common.Check(
        'P23', 'a distinct (pair of schemas, language, document) triple with '
        'at least one key')
    for lang in tri.LANGS:
        check.require('compared_' + lang, 200)
    for change in CHANGES:
        check.require('compared_with_' + change.__name__, 100)
    for name in ('accepted_by_both', 'rejected_by_both'):
        check.require(name, 300)
    mappings = []
    for number, mapping in enumerate(
            trichecks.schemas('P23', common.scale(49, 350))):
        variant, chosen = vary(
            common.rng('P23', 'variant', number), mapping, number)
        CHOSEN.append(chosen)
        mappings += [mapping, variant]
    trichecks.run_batches(check, item, mappings)
    return check.finish()
