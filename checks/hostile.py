"""Check that parsing is total on hostile documents."""
import json

from vlib import common, docgen, model, par, pyrun
from checks import gochecks, pychecks

MINIMAL = 'is a probe.'


def null_registry(schema, doc, exception):
    """Recognize the listed crash on a null registry."""
    return (isinstance(exception, AttributeError)
            and "'NoneType' object has no attribute 'items'" in str(exception)
            and isinstance(doc, dict)
            and any(doc.get(cls.registry, '') is None
                    for cls in schema.classes.values()))


def huge_integer(doc):
    """Check that the document has an integer beyond the range of floats."""
    if isinstance(doc, dict):
        return any(huge_integer(item) for item in doc.values())
    if isinstance(doc, list):
        return any(huge_integer(item) for item in doc)
    return (isinstance(doc, int) and not isinstance(doc, bool)
            and abs(doc) >= 2**1023)


def float_overflow(doc, exception):
    """Recognize the listed crash on a huge integer for a float."""
    return (isinstance(exception, OverflowError)
            and 'int too large to convert to float' in str(exception)
            and huge_integer(doc))


def p08_py(rec, idx):
    """Feed hostile documents to the Python code of one schema."""
    mapping = pychecks.schema_for('P08', idx)
    schema = model.Schema(mapping)
    docs = docgen.Docs(common.rng('P08', 'py', idx), schema, 'py')
    module = pychecks.open_module(rec, mapping, idx)
    if module is None:
        return
    with module:
        for _ in range(common.scale(40, 80)):
            doc = docs.hostile()
            replay = {'language': 'py', 'schema': mapping, 'document': doc}
            res = module.from_jsonable(doc)
            rec.observe((idx, 'py', json.dumps(doc)), bool(res.errors))
            if res.exception is not None:
                key = None
                if null_registry(schema, doc, res.exception):
                    key = 'py-null-registry'
                if float_overflow(doc, res.exception):
                    key = 'py-float-overflow'
                rec.violation('Python raised {!r}'.format(res.exception),
                              replay, key=key)
                continue
            if bool(res.errors) == (res.graph is not None):
                rec.violation(
                    'Python gave a graph {!r} and the errors {!r}'.format(
                        res.graph, res.errors[:3]), replay)
                continue
            rec.count('py_rejected' if res.errors else 'py_accepted')


def p08_go(rec, pair):
    """Feed hostile documents to the Go code of one schema."""
    local, idx = pair
    batch = gochecks.CURRENT
    mapping = batch.mappings[local]
    schema = model.Schema(mapping)
    docs = docgen.Docs(common.rng('P08', 'go', idx), schema, 'go')
    with batch:
        for _ in range(common.scale(60, 120)):
            doc = docs.hostile()
            replay = {'language': 'go', 'schema': mapping, 'document': doc}
            res = batch.request(local, doc)
            rec.observe((idx, 'go', json.dumps(doc)), bool(res['errors']))
            if (res.get('panic') and gochecks.KF_PANIC in
                    res['panic'].split('\n')[0]):
                rec.violation(
                    'Go panicked since there had been errors already', replay,
                    key='go-nonempty-errors-panic')
                res = batch.request(local, doc, cap=1)
                if not res.get('panic') and len(res['errors']) != 1:
                    rec.violation('no error with the cap of one', replay)
                    continue
            if res.get('panic'):
                rec.violation('Go panicked ({}): {}'.format(
                    res.get('stage'), res['panic'][:600]), replay)
                continue
            rec.count('go_rejected' if res['errors'] else 'go_accepted')


def probes(check):
    """Probe the listed findings."""
    prop = {'type': 'integer', 'description': MINIMAL}
    mapping = {
        'name': 'G', 'description': MINIMAL,
        'py': {'module_name': 'probe', 'path_as': 'str',
               'timezone_as': 'str'},
        'properties': {'f': {'type': 'float', 'description': MINIMAL}},
        'classes': [{'name': 'C', 'description': MINIMAL,
                     'properties': {'x': prop}}]
    }
    doc = {'f': 1.5, 'cs': None}
    with pyrun.PyModule(mapping) as module:
        res = module.from_jsonable(doc)
        check.finding(
            'py-null-registry',
            null_registry(model.Schema(mapping), doc, res.exception),
            'a null registry raises {!r}'.format(res.exception),
            {'schema': mapping, 'document': doc})
        doc = {'f': 10**400}
        res = module.from_jsonable(doc)
        check.finding('py-float-overflow', float_overflow(doc, res.exception),
                      'an integer beyond the range of floats raises '
                      '{!r}'.format(res.exception),
                      {'schema': mapping, 'document': doc})
    gochecks.probe_panic(check)


def p08():
    """Decide P08."""
    check = common.Check(
        'P08', 'a distinct (schema, language, document) triple with a '
        'document which was rejected')
    for name in ('py_rejected', 'go_rejected', 'py_accepted', 'go_accepted'):
        check.require(name, 50)
    par.run(check, p08_py, range(common.scale(500, 6000)))
    gochecks.run_batches(check, 'P08', p08_go, common.scale(150, 1500))
    probes(check)
    return check.finish()
