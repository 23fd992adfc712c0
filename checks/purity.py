"""Monitor the purity of parsing and serialization, also concurrently."""
import collections
import copy
import json
import sys
import threading

from checks import trichecks
from vlib import common, docgen, memory, model, tri


def frozen(value):
    """Take a snapshot with types, order and identity-free content."""
    if isinstance(value, dict):
        return (type(value).__name__,
                tuple((key, frozen(item)) for key, item in value.items()))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(frozen(item) for item in value))
    return (type(value).__name__, repr(value))


# -- Python ----------------------------------------------------------------
def unordered(doc):
    """Compare regardless of the order."""
    return json.dumps(doc, sort_keys=True)


def item_py(rec, session, idx):
    """Repeat parsing and serialization of the same objects in Python."""
    # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    # pylint: disable=too-many-return-statements
    rng = common.rng('P21', 'py', idx)
    schema, module = session.schema, session.py
    docs = docgen.Docs(rng, schema, 'py')
    canonizer = model.Canon(schema, 'py')
    earlier = []
    for number in range(common.scale(20, 50)):
        doc = docs.valid()
        if number % 3 == 1:
            doc = docs.mutate(doc, rng.choice([1, 2]))
        elif number % 3 == 2:
            doc = docs.with_unknown(doc)
        if number % 2:
            doc = json.loads(json.dumps(doc))  # plain dictionaries
        replay = {'schema': session.mapping, 'language': 'py',
                  'document': doc}
        before = frozen(doc)
        first = module.from_jsonable(doc)
        second = module.from_jsonable(doc)
        rec.observe((idx, 'py', json.dumps(doc)), len(doc) > 0)
        if frozen(doc) != before:
            return rec.violation('Python: parsing changed the document',
                                 replay)
        if first.exception is not None or second.exception is not None:
            return rec.violation('Python raised {!r}'.format(
                first.exception or second.exception), replay)
        if first.errors != second.errors:
            return rec.violation('Python: the second parsing differs', replay)
        rec.count('repeated_py')
        if first.graph is None:
            continue
        dump = memory.PyDump(schema, module).dump(first.graph)
        plain = module.to_jsonable(first.graph)
        ordered = module.to_jsonable(first.graph, True)
        if memory.PyDump(schema, module).dump(first.graph) != dump:
            return rec.violation('Python: serialization changed the graph',
                                 replay)
        if frozen(doc) != before:
            return rec.violation('Python: serialization changed the document',
                                 replay)
        if memory.PyDump(schema, module).dump(second.graph) != dump:
            return rec.violation('Python: the graphs differ', replay)
        if (module.to_jsonable(first.graph) != plain or frozen(
                module.to_jsonable(first.graph, True)) != frozen(ordered)):
            return rec.violation('Python: the second serialization differs',
                                 replay)
        if unordered(plain) != unordered(ordered):
            return rec.violation(
                'Python: the ordered serialization differs', replay)
        # order of the schema, then of the registries in the document
        try:
            valid = not model.Judge(schema, 'py').judge(doc, 'ref')
        except model.Grey:
            valid = False
        diff = valid and model.differs(canonizer.doc(doc), ordered,
                                       ordered=True)
        if diff:
            return rec.violation(
                'Python: the ordered serialization is out of order: ' + diff,
                dict(replay, got=ordered))
        if not is_ordered(schema, ordered):
            return rec.violation(
                'Python: the ordered serialization has no ordered mappings',
                dict(replay, got=repr(ordered)[:500]))
        rec.count('ordered')
        # An earlier graph has to be independent of what came later.
        if earlier:
            old_graph, old_out, old_doc = rng.choice(earlier)
            if unordered(module.to_jsonable(old_graph)) != old_out:
                return rec.violation(
                    'Python: a graph changed when others were parsed',
                    dict(replay, earlier=old_doc))
            rec.count('earlier_graphs')
        earlier.append((first.graph, unordered(plain), doc))
        if number % 4 == 0 and not concurrent_py(
                rec, module, doc, first.graph, unordered(plain), replay):
            return None
        if not tamper_py(rec, rng, schema, module, second.graph, replay):
            return None
    return None


def is_ordered(schema, ordered):
    """Check that the composites are ordered mappings."""
    if not isinstance(ordered, collections.OrderedDict):
        return False
    return all(
        isinstance(instance, collections.OrderedDict)
        for cls in schema.classes.values() if cls.registry in ordered
        for instance in ordered[cls.registry].values())


def concurrent_py(rec, module, doc, graph, expected, replay):
    """Parse and serialize in threads which are switched often."""
    trouble = []

    def work():
        try:
            for _ in range(2):
                errors = module.parse.Errors(1000)
                got = getattr(
                    module.fromjsonable,
                    module.mapping['name'].lower() + '_from')(
                        doc, 'ref', errors)
                for which in (got, graph):
                    out = getattr(
                        module.tojsonable,
                        'serialize_' + module.mapping['name'].lower())(which)
                    if unordered(out) != expected:
                        trouble.append('the result differs')
        except Exception as err:  # pylint: disable=broad-except
            trouble.append(repr(err))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work) for _ in range(3)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(interval)
    if trouble:
        rec.violation('Python in threads: {}'.format(trouble[0]), replay)
        return False
    rec.count('concurrent_py', 12)
    return True


def tamper_py(rec, rng, schema, module, graph, replay):
    """Break the identifier of one instance."""
    places = [(cls.registry, an_id) for cls in schema.classes.values()
              for an_id in getattr(graph, cls.registry)]
    if not places:
        return True
    registry, an_id = rng.choice(places)
    instances = getattr(graph, registry)
    how = rng.randrange(3)
    if how == 0:
        instances[an_id].id = an_id + '-other'
    elif how == 1:
        instances[an_id + '-other'] = instances.pop(an_id)
    else:
        instances[an_id + '-other'] = instances[an_id]
    for ordered in (False, True):
        try:
            module.to_jsonable(graph, ordered)
        except ValueError as err:
            if an_id not in str(err) and repr(an_id)[1:-1] not in str(err):
                rec.violation('Python: the message does not name the '
                              'identifier: {!r}'.format(err), replay)
                return False
            rec.count('tampered_py')
            continue
        except Exception as err:  # pylint: disable=broad-except
            rec.violation('Python: a tampered registry raises {!r}'.format(
                err), replay)
            return False
        rec.violation('Python serialized a tampered registry {} {!r}'.format(
            registry, an_id), replay)
        return False
    return True


# -- Go and C++ ------------------------------------------------------------
def item_other(rec, session, lang, idx, race):
    """Repeat and tamper in the other languages."""
    rng = common.rng('P21', lang, idx, race)
    docs = docgen.Docs(rng, session.schema, lang)
    earlier = []
    for number in range(common.scale(16, 40)):
        doc = docs.valid(max_ids=6 if number % 3 == 0 else 4)
        if number % 4 == 3:
            doc = docs.mutate(doc, 1)
        elif number % 4 == 2:
            doc = docs.with_unknown(doc)
        op = 'race' if race else 'break{}'.format(rng.randrange(12))
        replay = {'schema': session.mapping, 'language': lang,
                  'document': doc, 'operation': op}
        res = session.request(lang, doc, op=op)
        rec.observe((idx, lang, op, json.dumps(doc)), len(doc) > 0)
        if res.panic_known:
            continue
        if res.trouble:
            return rec.violation('{}: {}'.format(lang, res.trouble), replay)
        if res.mutated:
            return rec.violation('{}: parsing changed the document'.format(
                lang), replay)
        if res.errors and 'unexpected non-empty errors' in str(res.unstable):
            # Listed for P05 and P08, it depends on the order of the maps.
            rec.count('go_panics')
            continue
        if res.unstable:
            return rec.violation('{}: {}'.format(lang, res.unstable), replay)
        rec.count('repeated_' + lang)
        if race:
            if not res.raced:
                return rec.violation(
                    '{}: nothing ran concurrently'.format(lang), replay)
            rec.count('concurrent_' + lang, res.raced)
            continue
        if res.errors:
            continue
        instances = sum(len(doc.get(cls.registry, {}))
                        for cls in session.schema.classes.values())
        if instances and res.broken != 'refused':
            return rec.violation(
                '{}: a registry with a wrong identifier is {!r}'.format(
                    lang, res.broken), replay)
        if instances:
            rec.count('tampered_' + lang)
        if earlier:
            old_doc, old_out = rng.choice(earlier)
            again = session.request(lang, copy.deepcopy(old_doc))
            if not again.accepted or unordered(again.out) != old_out:
                return rec.violation(
                    '{}: parsing an earlier document again differs'.format(
                        lang), dict(replay, earlier=old_doc))
            rec.count('earlier_graphs')
        earlier.append((doc, unordered(res.out)))
    return None


def item(rec, pair):
    """Decide one schema."""
    local, idx = pair
    with trichecks.CURRENT.session(rec, local) as session:
        if 'py' in session.langs:
            item_py(rec, session, idx)
        for lang in ('go', 'cpp'):
            if lang in session.langs:
                item_other(rec, session, lang, idx, False)


def item_race(rec, pair):
    """Decide one schema under the race detectors."""
    local, idx = pair
    with trichecks.CURRENT.session(rec, local) as session:
        for lang in session.langs:
            item_other(rec, session, lang, idx, True)


def p21():
    """Decide P21."""
    check = common.Check(
        'P21', 'a distinct (schema, language, document, operation) tuple '
        'which was parsed and serialized repeatedly, concurrently or after '
        'tampering')
    for lang in tri.LANGS:
        check.require('repeated_' + lang, 100)
        check.require('concurrent_' + lang, 200)
        check.require('tampered_' + lang, 50)
    check.require('ordered', 100)
    total = common.scale(40, 400)
    mappings = trichecks.schemas('P21', total, classes=(1, 4), embeds=(1, 3),
                                 props=(1, 6))
    trichecks.run_batches(check, item, mappings)
    raced = trichecks.schemas('P21race', common.scale(24, 240),
                              classes=(1, 3), embeds=(1, 3), props=(2, 6))
    trichecks.run_batches(check, item_race, raced, langs=('go', 'cpp'),
                          variant='tsan', race=True)
    return check.finish()
