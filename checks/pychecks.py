"""Checks of the generated Python code."""
import json

from checks import findings
from vlib import common, docgen, model, par, pyrun, schemagen
from vlib.codegen import GenerationError


def open_module(rec, mapping, idx):
    """Generate and import the code; give None on failure (a violation)."""
    try:
        return pyrun.PyModule(mapping)
    except GenerationError as err:
        rec.violation('no code for the valid schema {}: {}'.format(idx, err),
                      {'schema': mapping})
    except Exception as err:  # pylint: disable=broad-except
        rec.violation(
            'the generated module can not be imported (schema {}): '
            '{}: {}'.format(idx, type(err).__name__, err),
            {'schema': mapping})
    return None


def schema_for(prop, idx, lang='py'):
    """Give the schema for the index."""
    rng = common.rng(prop, 'schema', idx)
    opts = schemagen.Opts(lang)
    if idx % 5 == 4:
        opts.depth = 5
    if idx % 7 == 6:
        opts.classes = (3, 6)
        opts.embeds = (2, 5)
        opts.props = (3, 10)
    return schemagen.generate(rng, opts)


# -- P01 ------------------------------------------------------------------
def p01_item(rec, idx):
    """Round-trip documents through the code of one schema."""
    mapping = schema_for('P01', idx)
    schema = model.Schema(mapping)
    rng = common.rng('P01', 'docs', idx)
    docs = docgen.Docs(rng, schema, 'py')
    features = schemagen.features(mapping)
    module = open_module(rec, mapping, idx)
    if module is None:
        rec.observe(('schema', idx), False)
        return
    with module:
        for number in range(common.scale(12, 25)):
            doc = docs.valid()
            if number % 4 == 3:
                doc = docs.with_unknown(doc)
            pristine = json.dumps(doc)
            replay = {'schema': mapping, 'document': doc}
            res = module.from_jsonable(doc)
            rec.observe((idx, pristine), len(doc) > 0,
                        sample={'schema': mapping['name'],
                                'document': doc} if number == 0 else None)
            if res.exception is not None:
                rec.violation('parsing raised {!r}'.format(res.exception),
                              replay)
                break
            if res.errors:
                rec.violation('a valid document was rejected: {!r}'.format(
                    res.errors[:3]), replay)
                break
            if res.graph is None:
                rec.violation('no errors, but no graph', replay)
                break
            try:
                out = module.to_jsonable(res.graph, ordered=bool(number % 2))
                text = json.dumps(out)
            except Exception as err:  # pylint: disable=broad-except
                rec.violation('serialization raised {!r}'.format(err), replay)
                break
            diff = model.differs(model.Canon(schema, 'py').doc(doc), out)
            if diff:
                rec.violation('the document changed in the round trip: ' +
                              diff, dict(replay, got=out))
                break
            again = module.from_jsonable(json.loads(text))
            if again.exception is not None or again.errors:
                rec.violation(
                    'the serialized document was rejected: {!r} {!r}'.format(
                        again.exception, again.errors[:3]),
                    dict(replay, got=out))
                break
            out2 = module.to_jsonable(again.graph)
            if model.differs(model.Canon(schema, 'py').doc(doc), out2):
                rec.violation('the second round trip changed the document',
                              dict(replay, got=out2))
                break
            rec.count('round_trips')
    for feature in features:
        rec.count('features')
        rec.observe(('feature', feature), True, n=0)


def p01():
    """Decide P01."""
    check = common.Check(
        'P01', 'a distinct (schema, document) pair with at least one key; '
        'distinct schema features are counted too')
    check.require('round_trips', 100)
    par.run(check, p01_item, range(common.scale(1200, 12000)))
    findings.p01(check)
    return check.finish()


# -- P04 ------------------------------------------------------------------
def p04_item(rec, idx):
    """Reject faulty documents of one schema."""
    mapping = schema_for('P04', idx)
    schema = model.Schema(mapping)
    rng = common.rng('P04', 'docs', idx)
    docs = docgen.Docs(rng, schema, 'py')
    module = open_module(rec, mapping, idx)
    if module is None:
        return
    with module:
        for number in range(common.scale(30, 60)):
            doc = docs.mutate(docs.valid(), rng.choice([1, 1, 1, 2, 3, 5]))
            ref = rng.choice(['ref', '', 'file.json#', 'a/b {}', '%d'])
            try:
                errs = model.Judge(schema, 'py').judge(doc, ref)
            except model.Grey:
                rec.count('unspecified')
                continue
            replay = {'schema': mapping, 'document': doc, 'ref': ref}
            res = module.from_jsonable(doc, ref)
            rec.observe((idx, json.dumps(doc)), bool(errs),
                        sample={'errors': errs} if number == 0 else None)
            if not judge_result(rec, 'P04', res, errs, replay):
                break


def judge_result(rec, prop, res, errs, replay):
    """Compare the observed errors with the expected ones."""
    expected = sorted(err.ref for err in errs)
    if res.exception is not None:
        rec.violation('parsing raised {!r}'.format(res.exception), replay)
        return False
    if res.refs != expected:
        rec.violation(
            'expected errors at {!r}, got {!r}'.format(
                [tuple(err) for err in errs], res.errors), replay)
        return False
    if expected and res.graph is not None:
        rec.violation('a graph was returned despite the errors', replay)
        return False
    if not expected and res.graph is None:
        rec.violation('neither errors nor a graph', replay)
        return False
    for _, message in res.errors:
        if not isinstance(message, str) or not message:
            rec.violation('an error without a message', replay)
            return False
    for err in errs:
        rec.count('errors_' + err.code)
    rec.count('rejected' if expected else 'accepted')
    return True


def p04():
    """Decide P04."""
    check = common.Check(
        'P04', 'a distinct (schema, document) pair which breaks at least one '
        'constraint')
    for code in ('type', 'missing', 'bound', 'pattern', 'format', 'size',
                 'ref', 'id'):
        check.require('errors_' + code)
    par.run(check, p04_item, range(common.scale(1200, 12000)))
    findings.p04(check)
    return check.finish()
