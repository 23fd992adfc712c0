"""Checks of the generated Go code."""
import json

from vlib import common, docgen, gorun, model, par, schemagen

KF_PANIC = 'unexpected non-empty errors'
BATCH = 150

BATCHES = {}


def schema_for(prop, idx):
    """Give the schema for the index."""
    rng = common.rng(prop, 'schema', idx)
    opts = schemagen.Opts('go')
    if idx % 5 == 4:
        opts.depth = 5
    if idx % 7 == 6:
        opts.classes = (3, 6)
        opts.embeds = (2, 5)
        opts.props = (3, 10)
    if prop in ('P05', 'P10') and idx % 3 == 0:
        opts.classes = (0, 0)
        opts.embeds = (0, 0)
        opts.props = (2, 9)
    return schemagen.generate(rng, opts)


def open_batch(check, mappings, root, what='round trip'):
    """Build the batch; report the schemas without a working code."""
    batch = gorun.GoBatch(mappings, root)
    for idx, err in batch.failures.items():
        check.violation(
            'no Go code for the valid schema {}: {}'.format(idx, err),
            {'schema': mappings[idx]})
    for idx, text in batch.build_isolating().items():
        check.violation(
            'the generated Go code does not build (schema {}):\n{}'.format(
                idx, text), {'schema': mappings[idx]})
    check.count('go_packages_built', len(batch.paths))
    return batch


def run_batches(check, prop, item, total):
    """Run the items in batches."""
    global CURRENT
    for start in range(0, total, BATCH):
        indices = range(start, min(total, start + BATCH))
        mappings = [schema_for(prop, idx) for idx in indices]
        with common.scratch() as root:
            CURRENT = open_batch(check, mappings, root)
            par.run(check, item, [
                (i, idx) for i, idx in enumerate(indices)
                if i in CURRENT.paths
            ])


CURRENT = None


# -- P02 ------------------------------------------------------------------
def p02_item(rec, pair):
    """Round-trip documents of one schema."""
    local, idx = pair
    mapping = CURRENT.mappings[local]
    schema = model.Schema(mapping)
    docs = docgen.Docs(common.rng('P02', 'docs', idx), schema, 'go')
    with CURRENT:
        for number in range(common.scale(15, 40)):
            doc = docs.valid()
            if number % 4 == 3:
                doc = docs.with_unknown(doc)
            replay = {'schema': mapping, 'document': doc}
            res = CURRENT.request(local, doc)
            rec.observe((idx, json.dumps(doc)), len(doc) > 0,
                        sample={'document': doc} if number == 0 else None)
            if res.get('panic'):
                rec.violation('{} panicked: {}'.format(
                    res['stage'], res['panic'][:600]), replay)
                break
            if res['errors']:
                rec.violation('a valid document was rejected: {!r}'.format(
                    res['errors'][:3]), replay)
                break
            if res.get('outerr') or not res.get('hasout'):
                rec.violation('serialization failed: {!r}'.format(
                    res.get('outerr')), replay)
                break
            canon = model.Canon(schema, 'go').doc(doc)
            diff = model.differs(canon, res['out'] or {})
            if diff:
                rec.violation('the document changed in the round trip: ' +
                              diff, dict(replay, got=res['out']))
                break
            again = CURRENT.request(local, res['out'] or {})
            if again.get('panic') or again['errors']:
                rec.violation(
                    'the serialized document was rejected: {!r} {!r}'.format(
                        again.get('panic'), again['errors'][:3]),
                    dict(replay, got=res['out']))
                break
            if model.differs(canon, again.get('out') or {}):
                rec.violation('the second round trip changed the document',
                              dict(replay, got=again.get('out')))
                break
            rec.count('round_trips')
    for feature in schemagen.features(mapping):
        rec.observe(('feature', feature), True, n=0)


def p02():
    """Decide P02."""
    check = common.Check(
        'P02', 'a distinct (schema, document) pair with at least one key; '
        'distinct schema features are counted too')
    check.require('round_trips', 100)
    run_batches(check, 'P02', p02_item, common.scale(300, 3000))
    return check.finish()


# -- P05 ------------------------------------------------------------------
def judge_response(rec, request, errs, replay, prefix=''):
    """
    Compare the response with the expected errors.

    The entry of a class or an embed panics if there are errors already
    (a known finding); the document is then judged with a cap of one.
    """
    expected = sorted(err.ref for err in errs)
    res = request(0)
    if res.get('panic'):
        if KF_PANIC in res['panic'].split('\n')[0] and expected:
            rec.violation(
                'FromJSONable panicked since there had been errors already',
                replay, key='go-nonempty-errors-panic')
            res = request(1)
            if res.get('panic'):
                rec.violation('panicked with the cap of one: {}'.format(
                    res['panic'][:600]), replay)
                return None
            if len(res['errors']) != 1 or (res['errors'][0]['ref'] not in
                                           expected):
                rec.violation(
                    'expected one of the errors at {!r}, got {!r}'.format(
                        [tuple(err) for err in errs], res['errors']), replay)
                return None
            rec.count('rejected_first_error')
            if len(expected) == 1:
                for err in errs:
                    rec.count('errors_' + err.code)
            return res
        rec.violation('panicked: {}'.format(res['panic'][:600]), replay)
        return None
    if res['exact_refs'] != expected:
        rec.violation('expected errors at {!r}, got {!r}'.format(
            [tuple(err) for err in errs], res['errors']), replay)
        return None
    if any(not err['message'] for err in res['errors']):
        rec.violation('an error without a message', replay)
        return None
    for err in errs:
        rec.count('errors_' + err.code)
    rec.count('rejected_all_errors' if expected else 'accepted')
    return res


def p05_item(rec, pair):
    """Reject faulty documents of one schema."""
    local, idx = pair
    mapping = CURRENT.mappings[local]
    schema = model.Schema(mapping)
    rng = common.rng('P05', 'docs', idx)
    docs = docgen.Docs(rng, schema, 'go')
    with CURRENT:
        for number in range(common.scale(40, 80)):
            doc = docs.mutate(docs.valid(), rng.choice([1, 1, 1, 2, 3, 5]))
            ref = rng.choice(['ref', '', 'file.json#', 'a/b {}', '%d'])
            try:
                errs = model.Judge(schema, 'go').judge(doc, ref)
            except model.Grey:
                rec.count('unspecified')
                continue
            replay = {'schema': mapping, 'document': doc, 'ref': ref}
            rec.observe((idx, json.dumps(doc)), bool(errs),
                        sample={'errors': errs} if number == 0 else None)
            if judge_response(
                    rec, lambda cap: CURRENT.request(
                        local, doc, ref=ref, cap=cap), errs, replay) is None:
                break


def probe_panic(check):
    """Probe the known panic of the entries of classes and embeds."""
    mapping = {
        'name': 'G', 'description': 'is a probe.',
        'go': {'package': 'probe'},
        'embeds': [{'name': 'E', 'description': 'is a probe.', 'properties': {
            'x': {'type': 'integer', 'description': 'is a probe.'}}}],
        'properties': {
            'a': {'type': 'integer', 'description': 'is a probe.'},
            'b': {'type': 'E', 'description': 'is a probe.'}}
    }
    with common.scratch() as root:
        with open_batch(check, [mapping], root) as batch:
            doc = {'a': 'not an integer', 'b': {'x': 1}}
            res = batch.request(0, doc)
            check.finding('go-nonempty-errors-panic',
                          KF_PANIC in (res.get('panic') or ''),
                          'FromJSONable of an embed panics after an error',
                          {'schema': mapping, 'document': doc})


def p05():
    """Decide P05."""
    check = common.Check(
        'P05', 'a distinct (schema, document) pair which breaks at least one '
        'constraint')
    for code in ('type', 'missing', 'bound', 'pattern', 'format', 'size',
                 'ref', 'id'):
        check.require('errors_' + code)
    run_batches(check, 'P05', p05_item, common.scale(300, 3000))
    probe_panic(check)
    return check.finish()
