"""Check of the error containers."""
import collections
import itertools
import json

from checks import trichecks
from vlib import common, docgen, schemagen, tri

KF_PANIC = 'go-nonempty-errors-panic'


def histories(rng):
    """Give (cap, additions)."""
    for cap, size in itertools.product(range(0, 9), range(0, 12)):
        yield cap, [('ref{}'.format(i), 'message{}'.format(i))
                    for i in range(size)]
    texts = docgen.PLAIN_TEXTS + docgen.IDS
    for _ in range(common.scale(60, 600)):
        cap = rng.choice([0, 1, 2, 3, 5, 17, 100, 1000])
        # the same error may be added repeatedly
        pool = [(rng.choice(texts), rng.choice(texts))
                for _ in range(rng.randint(1, 6))]
        yield cap, [rng.choice(pool) for _ in range(
            rng.choice([0, 1, 2, 3, 5, 16, 17, 18, 130]))]
    yield 300, [('a', 'b')] * 301


def expected_steps(lang, cap, adds):
    """Give (size, full, empty) after each addition and the final errors."""
    unlimited = lang == 'go' and cap == 0
    steps = []
    kept = []
    for number in range(len(adds) + 1):
        if number > 0 and (unlimited or len(kept) < cap):
            kept.append(tuple(adds[number - 1]))
        steps.append((len(kept), not unlimited and len(kept) == cap,
                      not kept))
    return steps, kept


def run_history(session, lang, cap, adds):
    """Give the observed steps and the final errors."""
    if lang == 'py':
        errors = session.py.parse.Errors(cap)

        def snapshot():
            size = len(list(errors.values()))
            if size != errors.count():
                return ('count() gives', errors.count(), 'of', size)
            return (size, errors.full(), errors.empty())

        steps = [snapshot()]
        for ref, message in adds:
            errors.add(ref, message)
            steps.append(snapshot())
        return steps, [(err.ref, err.message) for err in errors.values()]
    batch = session.tri.go if lang == 'go' else session.tri.cpp
    extra = {'adds': [list(add) for add in adds]}
    if lang == 'cpp' and len(adds) % 2:
        extra['reserve'] = len(adds) // 2
    resp = batch.request(session.idx, None, 'ref', cap, 'history', **extra)
    if resp.get('panic') or resp.get('crash'):
        return [], [resp.get('panic') or resp.get('crash')]
    return ([(step['size'], step['full'], step['empty'])
             for step in resp['steps']],
            [(err['ref'], err['message']) for err in resp['errors']])


def few_keys(docs, doc):
    """Leave one entry in each map, so that the order of errors is defined."""
    changed = True
    while changed:
        changed = False
        for container, key, mapping in docs.sites(doc):
            value = container[key]
            if mapping['type'] == 'map' and isinstance(value, dict) and len(
                    value) > 1:
                for name in list(value)[1:]:
                    del value[name]
                changed = True
                break
    return doc


def p10_item(rec, pair):
    """Compare the errors under different caps with one schema."""
    local, idx = pair
    rng = common.rng('P10', idx)
    with trichecks.CURRENT.session(rec, local) as session:
        for lang in list(session.langs):
            if idx < 6:
                for cap, adds in histories(common.rng('P10', 'hist', idx)):
                    want = expected_steps(lang, cap, adds)
                    got = run_history(session, lang, cap, adds)
                    rec.observe((lang, cap, repr(adds)), True)
                    if (list(got[0]), list(got[1])) != (want[0], want[1]):
                        rec.violation(
                            '{}: a container with the cap {} went through '
                            '{!r}, expected {!r}'.format(
                                lang, cap, got, want),
                            {'schema': session.mapping, 'language': lang,
                             'cap': cap, 'additions': adds})
                        break
                    rec.count('histories_' + lang)
            parse_with_caps(rec, session, lang, idx, rng)


def parse_with_caps(rec, session, lang, idx, rng):
    """Parse faulty documents under different caps."""
    # pylint: disable=too-many-locals
    docs = docgen.Docs(common.rng('P10', 'docs', lang, idx), session.schema,
                       lang)
    for number in range(common.scale(20, 60)):
        ordered = lang != 'go' or number % 2 == 0
        doc = docs.valid(max_ids=1 if ordered and lang == 'go' else 4)
        doc = docs.mutate(doc, rng.choice([0, 1, 2, 3, 5, 8, 12]))
        if ordered and lang == 'go':
            doc = few_keys(docs, doc)
            ordered = all(
                not isinstance(doc.get(cls.registry), dict)
                or len(doc[cls.registry]) < 2
                for cls in session.schema.classes.values())
        free = session.request(lang, doc)
        replay = {'schema': session.mapping, 'language': lang,
                  'document': doc}
        if free.trouble:
            rec.count('troubled')
            continue
        total = len(free.errors)
        caps = {1, 2, 3, total - 1, total, total + 1, total * 2 + 5}
        if total == 0:
            caps = {1, 5}
        for cap in sorted(cap for cap in caps if cap > 0):
            res = session.request(lang, doc, cap=cap)
            rec.observe((idx, lang, cap, json.dumps(doc)), total > 0)
            if res.trouble:
                if res.panic_known and total:
                    rec.count('troubled')
                    continue
                rec.violation('{}: with the cap {} of {} errors: {}'.format(
                    lang, cap, total, res.trouble), dict(replay, cap=cap))
                return
            want = free.errors[:cap]
            if ordered:
                good = res.errors == want
            else:
                good = (len(res.errors) == len(want) and not
                        collections.Counter(res.errors) -
                        collections.Counter(free.errors))
            if not good or (res.out is None) != (free.out is None):
                rec.violation(
                    '{}: with the cap {}: {!r}, but {!r} without'.format(
                        lang, cap, res.errors, free.errors),
                    dict(replay, cap=cap))
                return
            if cap < total:
                rec.count('{}_capped_{}'.format(
                    'ordered' if ordered else 'unordered', lang))
            elif cap == total:
                rec.count('exactly_full_' + lang)
            elif total == 0:
                rec.count('accepted_' + lang)


def p10():
    """Decide P10."""
    check = common.Check(
        'P10', 'a distinct history of a container, or a (schema, language, '
        'document, cap) with at least one error')
    for lang in tri.LANGS:
        check.require('histories_' + lang, 500)
        check.require('ordered_capped_' + lang, 200)
        check.require('exactly_full_' + lang, 50)
        check.require('accepted_' + lang, 30)
    check.require('unordered_capped_go', 20)
    total = common.scale(48, 480)
    mappings = []
    for idx, mapping in enumerate(
            trichecks.schemas('P10', total, props=(2, 7))):
        if idx % 2:
            # The entries of composites panic on earlier errors in Go.
            opts = schemagen.Opts('cpp', cross=True, classes=(0, 0),
                                  embeds=(0, 0), props=(4, 9))
            mapping = schemagen.generate(common.rng('P10', 'flat', idx), opts)
        mappings.append(mapping)
    trichecks.run_batches(check, p10_item, mappings)
    return check.finish()
