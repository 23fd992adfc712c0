"""Checks of the generated C++ code."""
import json
import re

from checks import dialects, findings
from vlib import common, cpprun, docgen, model, par, schemagen

BATCH = 160
CURRENT = None


def schema_for(prop, idx):
    """Give the schema for the index."""
    rng = common.rng(prop, 'schema', idx)
    opts = schemagen.Opts('cpp')
    if idx % 5 == 4:
        opts.depth = 5
    if idx % 7 == 6:
        opts.classes = (3, 6)
        opts.embeds = (2, 5)
        opts.props = (3, 10)
    return schemagen.generate(rng, opts)


def open_batch(check, mappings, root, variant='asan'):
    """Build the batch; report the schemas without a working code."""
    batch = cpprun.CppBatch(mappings, root, variant)
    for idx, err in batch.failures.items():
        check.violation(
            'no C++ code for the valid schema {}: {}'.format(idx, err),
            {'schema': mappings[idx]})
    for idx, text in batch.build().items():
        check.violation(
            'the generated C++ code does not compile (schema {}):\n{}'.format(
                idx, text), {'schema': mappings[idx]})
    check.count('cpp_schemas_built', len(batch.sources))
    return batch


def run_batches(check, prop, item, total):
    """Run the items in batches."""
    global CURRENT
    for start in range(0, total, BATCH):
        indices = range(start, min(total, start + BATCH))
        mappings = [schema_for(prop, idx) for idx in indices]
        with common.scratch() as root:
            CURRENT = open_batch(check, mappings, root)
            par.run(check, item, [
                (i, idx) for i, idx in enumerate(indices)
                if i in CURRENT.sources
            ])


def trouble(res):
    """Describe the crash or the exception, if any."""
    if res.get('crash'):
        return 'the process crashed: {}'.format(res['crash'][:1500])
    if res.get('exception') is not None:
        return '{} raised: {}'.format(res['stage'], res['exception'])
    return None


# -- P03 ------------------------------------------------------------------
def p03_item(rec, pair):
    """Round-trip documents of one schema."""
    local, idx = pair
    mapping = CURRENT.mappings[local]
    schema = model.Schema(mapping)
    docs = docgen.Docs(common.rng('P03', 'docs', idx), schema, 'cpp')
    canonizer = model.Canon(schema, 'cpp')
    with CURRENT:
        for number in range(common.scale(25, 60)):
            doc = docs.valid()
            if number % 4 == 3:
                doc = docs.with_unknown(doc)
            replay = {'schema': mapping, 'document': doc}
            res = CURRENT.request(local, doc)
            rec.observe((idx, json.dumps(doc)), len(doc) > 0,
                        sample={'document': doc} if number == 0 else None)
            if trouble(res):
                rec.violation(trouble(res), replay)
                break
            if res['errors']:
                rec.violation('a valid document was rejected: {!r}'.format(
                    res['errors'][:3]), replay)
                break
            canon = canonizer.doc(doc)
            diff = model.differs(canon, res['out'] or {})
            if diff:
                rec.violation('the document changed in the round trip: ' +
                              diff, dict(replay, got=res['out']))
                break
            again = CURRENT.request(local, res['out'] or {})
            if trouble(again) or again['errors']:
                rec.violation(
                    'the serialized document was rejected: {!r} {!r}'.format(
                        trouble(again), again['errors'][:3]),
                    dict(replay, got=res['out']))
                break
            if model.differs(canon, again['out'] or {}):
                rec.violation('the second round trip changed the document',
                              dict(replay, got=again['out']))
                break
            rec.count('round_trips')
    for feature in schemagen.features(mapping):
        rec.observe(('feature', feature), True, n=0)


def p03():
    """Decide P03."""
    check = common.Check(
        'P03', 'a distinct (schema, document) pair with at least one key; '
        'distinct schema features are counted too')
    check.require('round_trips', 100)
    check.require('dialect_accepted', 50)
    run_batches(check, 'P03', p03_item, common.scale(96, 960))
    dialects.run(check, 'P03', common.scale(8, 64))
    findings.p03(check)
    return check.finish()


# -- P06 ------------------------------------------------------------------
def judge_response(rec, res, errs, replay):
    """Compare the response with the expected errors."""
    expected = sorted(err.ref for err in errs)
    if trouble(res):
        rec.violation(trouble(res), replay)
        return False
    if res['exact_refs'] != expected:
        lax = sorted(err.ref for err in errs if err.code != 'time-range')
        known = res['exact_refs'] == lax
        rec.violation('expected errors at {!r}, got {!r}'.format(
            [tuple(err) for err in errs], res['errors']), replay,
                      key='cpp-dateh-time-range' if known else None)
        return known
    if any(not err['message'] for err in res['errors']):
        rec.violation('an error without a message', replay)
        return False
    if not expected and not res.get('hasout'):
        rec.violation('no errors, but no document', replay)
        return False
    for err in errs:
        rec.count('errors_' + err.code)
    rec.count('rejected' if expected else 'accepted')
    return True


def p06_item(rec, pair):
    """Reject faulty documents of one schema."""
    local, idx = pair
    mapping = CURRENT.mappings[local]
    schema = model.Schema(mapping)
    rng = common.rng('P06', 'docs', idx)
    docs = docgen.Docs(rng, schema, 'cpp')
    with CURRENT:
        for number in range(common.scale(60, 120)):
            doc = docs.mutate(docs.valid(), rng.choice([1, 1, 1, 2, 3, 5]))
            ref = rng.choice(['ref', '', 'file.json#', 'a/b {}', '%d'])
            try:
                errs = model.Judge(schema, 'cpp').judge(doc, ref)
            except model.Grey:
                rec.count('unspecified')
                continue
            replay = {'schema': mapping, 'document': doc, 'ref': ref}
            rec.observe((idx, json.dumps(doc)), bool(errs),
                        sample={'errors': errs} if number == 0 else None)
            if not judge_response(rec, CURRENT.request(local, doc, ref=ref),
                                  errs, replay):
                break


def probe(name, properties, **settings):
    """Give the schema of a probe."""
    cpp = {
        'namespace': 'probe', 'path_as': 'std::filesystem::path',
        'optional_as': 'std::optional', 'datetime_library': 'ctime'
    }
    cpp.update(settings)
    return {
        'name': name, 'description': 'is a probe.', 'cpp': cpp,
        'properties': {
            key: dict([('type', value['type']),
                       ('description', 'is a probe.')] + [
                           item for item in value.items()
                           if item[0] != 'type'])
            for key, value in properties.items()
        }
    }


def probe_time_range(check):
    """Probe the times out of range with date.h."""
    mapping = probe('G', {'t': {'type': 'time'}}, datetime_library='date.h')
    with common.scratch() as root:
        with open_batch(check, [mapping], root) as batch:
            doc = {'t': '99:99:00'}
            res = batch.request(0, doc)
            check.finding('cpp-dateh-time-range', not res['errors'],
                          'the time 99:99:00 is accepted with date.h',
                          {'schema': mapping, 'document': doc})


def p06():
    """Decide P06."""
    check = common.Check(
        'P06', 'a distinct (schema, document) pair which breaks at least one '
        'constraint')
    for code in ('type', 'missing', 'bound', 'pattern', 'format', 'size',
                 'ref', 'id'):
        check.require('errors_' + code)
    check.require('dialect_rejected', 50)
    run_batches(check, 'P06', p06_item, common.scale(96, 960))
    dialects.run(check, 'P06', common.scale(8, 64))
    probe_time_range(check)
    findings.p06(check)
    return check.finish()


# -- P09 ------------------------------------------------------------------
def long_duration(value):
    """Look for a text with a number beyond int64 or double."""
    if isinstance(value, dict):
        return any(long_duration(item) for item in value.values())
    if isinstance(value, list):
        return any(long_duration(item) for item in value)
    return isinstance(value, str) and 'P' in value and any(
        len(part) > 18 for part in re.findall('[0-9]+', value))


def without_durations(mapping):
    """Replace the durations, whose parser reads an uninitialised flag."""
    text = json.dumps(mapping)
    return json.loads(
        text.replace('"type": "duration"', '"type": "boolean"'))


PATTERN = None


def p09_item(rec, pair):
    """Run hostile documents through one schema."""
    local, idx = pair
    mapping = CURRENT.mappings[local]
    schema = model.Schema(mapping)
    rng = common.rng('P09', 'docs', idx)
    docs = docgen.Docs(rng, schema, 'cpp')
    both = PATTERN is not None and local in PATTERN.sources
    with CURRENT:
        for number in range(common.scale(80, 150)):
            kind = rng.random()
            if kind < 0.2:
                doc = docs.valid()
            elif kind < 0.5:
                doc = docs.mutate(docs.valid(), rng.choice([1, 2, 5]))
            else:
                doc = docs.hostile()
            cap = rng.choice([1000, 1000, 1, 2, 5])
            replay = {'schema': mapping, 'document': doc, 'cap': cap}
            res = CURRENT.request(local, doc, cap=cap)
            rec.observe((idx, json.dumps(doc)), True,
                        sample={'document': doc} if number == 0 else None)
            bad = trouble(res)
            if res.get('exception') in ('stod', 'stol') and res[
                    'stage'] == 'parse' and '"duration"' in json.dumps(
                        mapping) and long_duration(doc):
                # the finding cpp-duration-exception
                rec.count('known_exceptions')
                continue
            if not bad and not res['errors'] and not res.get('hasout'):
                bad = 'neither errors nor a document'
            if not bad and (res.get('identity') or res.get('mutated')
                            or res.get('unstable')):
                bad = 'inconsistent: {!r}'.format(res)
            if bad:
                rec.violation(bad, replay)
                break
            rec.count('rejected' if res['errors'] else 'accepted')
            if both:
                other = PATTERN.request(local, doc, cap=cap)
                if other != res:
                    rec.violation(
                        'the result depends on uninitialised memory: {!r} '
                        'and {!r}'.format(res, other), replay)
                    break
                rec.count('compared_with_pattern')
        for batch in (CURRENT, PATTERN if both else None):
            ended = batch.finish() if batch is not None else None
            if ended is not None:
                code, text = ended
                if 'LeakSanitizer has encountered a fatal error' in text:
                    rec.count('leak_check_unavailable')
                elif code != 0 or text.strip():
                    rec.violation(
                        'at the end, the process gave {}: {}'.format(
                            code, text[:2000]), {'schema': mapping})
                else:
                    rec.count('clean_exits_with_leak_check')


def probes_p09(check):
    """Probe the known memory and exception findings."""
    mapping = probe('G', {
        'd': {'type': 'duration', 'optional': True},
        't': {'type': 'date', 'format': '%A', 'optional': True}
    })
    with common.scratch() as root:
        with open_batch(check, [mapping], root) as batch:
            doc = {'d': 'P' + '9' * 400 + 'D'}
            res = batch.request(0, doc)
            check.finding('cpp-duration-exception',
                          bool(res.get('exception')),
                          'a huge duration raises: {}'.format(
                              res.get('exception')),
                          {'schema': mapping, 'document': doc})
            if res.get('crash'):
                check.violation(trouble(res),
                                {'schema': mapping, 'document': doc})
            doc = {'t': 'Wednesday'}
            res = batch.request(0, doc, timeout=20)
            check.finding('cpp-strftime-loop', bool(res.get('crash')),
                          'serializing the date "Wednesday" does not end',
                          {'schema': mapping, 'document': doc})
        batch = open_batch(check, [mapping], root, 'pattern')
        with batch:
            doc = {'d': 'PT1S'}
            res = batch.request(0, doc)
            check.finding('cpp-duration-uninitialised',
                          bool(trouble(res) or res['errors']),
                          'parsing any duration reads an uninitialised flag',
                          {'schema': mapping, 'document': doc})


def p09():
    """Decide P09."""
    global CURRENT, PATTERN
    check = common.Check(
        'P09', 'a distinct (schema, document) pair run under the address and '
        'undefined-behaviour sanitizers')
    check.require('rejected', 500)
    check.require('accepted', 200)
    check.require('compared_with_pattern', 500)
    total = common.scale(72, 640)
    for start in range(0, total, 120):
        indices = list(range(start, min(total, start + 120)))
        mappings = [schema_for('P09', idx) for idx in indices]
        mappings = [
            without_durations(mapping) if pos % 3 == 0 else mapping
            for pos, mapping in enumerate(mappings)
        ]
        with common.scratch() as root:
            CURRENT = open_batch(check, mappings, root)
            PATTERN = SubBatch(check, mappings, root, CURRENT)
            par.run(check, p09_item, [
                (i, idx) for i, idx in enumerate(indices)
                if i in CURRENT.sources
            ])
    probes_p09(check)
    return check.finish()


class SubBatch(cpprun.CppBatch):
    """Build the sources of another batch in the pattern variant."""

    def __init__(self, check, mappings, root, base):
        # pylint: disable=super-init-not-called
        self.__dict__.update(base.__dict__)
        self.variant = 'pattern'
        self.flags = cpprun.BASE_FLAGS + cpprun.VARIANTS['pattern']
        self.binary = self.root / 'driver-pattern'
        self.proc = None
        self.mappings = mappings
        self.sources = {
            i: source for i, source in base.sources.items()
            if '"duration"' not in json.dumps(mappings[i])
        }
        for idx, text in self.build().items():
            check.violation(
                'the C++ code does not compile (schema {}):\n{}'.format(
                    idx, text), {'schema': mappings[idx]})
