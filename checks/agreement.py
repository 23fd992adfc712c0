"""Compare the languages with each other on the same documents (P20)."""
import copy
import fractions
import json

from checks import trichecks
from vlib import common, docgen, model, tri


class CommonDocs(docgen.Docs):
    """Generate documents which all the languages can represent."""

    def __init__(self, rng, schema):
        super().__init__(rng, schema, 'go')

    def duration(self):
        """Generate a duration in whole microseconds."""
        rng = self.rng
        while True:
            text = rng.choice(['', '', '-', '+']) + 'P'
            if rng.random() < 0.2:
                text += '{}W'.format(rng.randint(0, 9))
            if rng.random() < 0.5:
                text += '{}D'.format(rng.choice([0, 1, 31, 70]))
            clock = ''
            if rng.random() < 0.5:
                clock += '{}H'.format(rng.choice([0, 1, 23, 24, 300]))
            if rng.random() < 0.5:
                clock += '{}M'.format(rng.choice([0, 1, 59, 60, 900]))
            if rng.random() < 0.6:
                clock += str(rng.choice([0, 1, 59, 60, 86400]))
                if rng.random() < 0.6:
                    clock += '.' + ''.join(
                        rng.choice('0012345678900')
                        for _ in range(rng.randint(1, 6)))
                clock += 'S'
            if clock:
                text += 'T' + clock
            if abs(model.duration_seconds(text)[0]) * 10**9 < 2**53:
                return text

    def composite(self, comp, depth=0, shuffle=True):
        """Set at least one property, which C++ relies on."""
        while True:
            got = super().composite(comp, depth, shuffle)
            if got or not comp.props:
                return got


def neutral(schema, doc):
    """Express the document independently of the units of the durations."""

    def value(a_type, item):
        name = a_type['type']
        if name == 'duration':
            return str(model.duration_seconds(item)[0])
        if name == 'array':
            return [value(a_type['values'], sub) for sub in item]
        if name == 'map':
            return {key: value(a_type['values'], sub)
                    for key, sub in item.items()}
        if name in schema.embeds:
            return properties(schema.embeds[name], item)
        if name == 'float':
            return repr(float(item)) if abs(item) < 2**53 else repr(
                fractions.Fraction(item))
        return item

    def properties(comp, item):
        return {prop.json: value(prop.type, item[prop.json])
                for prop in comp.props if prop.json in item}

    result = properties(schema.graph, doc)
    for cls in schema.classes.values():
        if doc.get(cls.registry):
            result[cls.registry] = {
                an_id: properties(cls, item)
                for an_id, item in doc[cls.registry].items()}
    return result


def expectations(schema, doc):
    """
    Judge the document for each language.

    :return: language -> list of errors, None if out of the common range
    """
    result = {}
    for lang in tri.LANGS:
        try:
            result[lang] = model.Judge(schema, lang).judge(doc, 'ref')
        except model.Grey:
            return None
    if any(err.code == 'time-range' for err in result['cpp']):
        return None
    codes = [[err.code for err in result[lang]] for lang in tri.LANGS]
    if codes[0] != codes[1] or codes[1] != codes[2]:
        return None
    return result


def item(rec, pair):
    """Compare the languages on the documents of one schema."""
    # pylint: disable=too-many-locals,too-many-return-statements
    local, idx = pair
    rng = common.rng('P20', 'faults', idx)
    with trichecks.CURRENT.session(rec, local) as session:
        schema = session.schema
        if len(session.langs) < 3:
            return None
        docs = CommonDocs(common.rng('P20', 'docs', idx), schema)
        for number in range(common.scale(30, 80)):
            doc = docs.valid()
            faults = 0
            if number % 2:
                faults = rng.choice([1, 1, 2, 3])
                doc = docs.mutate(doc, faults)
            elif number % 8 == 6:
                doc = docs.with_unknown(doc)
            expected = expectations(schema, doc)
            if expected is None:
                rec.count('out_of_common_range')
                continue
            if not expected['go'] and any(
                    comp.props and not any(prop.json in container[key]
                                           for prop in comp.props)
                    for container, key, comp in docs.composite_sites(doc)):
                # C++ serializes these to null (listed for P03).
                rec.count('out_of_common_range')
                continue
            names = {err.ref: other.ref for err, other in zip(
                expected['py'], expected['go'])}
            replay = {'schema': session.mapping, 'document': doc}
            got = {lang: session.request(lang, copy.deepcopy(doc))
                   for lang in tri.LANGS}
            rec.observe((idx, json.dumps(doc)), len(doc) > 0)
            for lang, res in got.items():
                if res.trouble and res.panic_known:
                    # Listed for P05 and P08: ask for the first error only.
                    got[lang] = None
                elif res.trouble:
                    return rec.violation(
                        '{} {}'.format(lang, res.trouble), replay)
            if got['go'] is None:
                if not got['py'].errors or not got['cpp'].errors:
                    return rec.violation(
                        'only Go rejects the document', replay)
                got['go'] = session.request('go', copy.deepcopy(doc), cap=1)
                if got['go'].accepted:
                    return rec.violation('only Go accepts the document',
                                         replay)
                rec.count('go_panics')
                del got['go']
            refs = {lang: res.refs for lang, res in got.items()}
            refs['py'] = sorted(names.get(ref, ref) for ref in refs['py'])
            for lang in got:
                if refs[lang] != refs['py']:
                    return rec.violation(
                        'the languages disagree on the broken places: '
                        '{!r}'.format({key: value[:5]
                                       for key, value in refs.items()}),
                        replay)
            if refs['py']:
                rec.count('rejected_by_all')
                continue
            rec.count('accepted_by_all')
            forms = {}
            for lang, res in got.items():
                try:
                    forms[lang] = neutral(schema, res.out)
                except (TypeError, KeyError, AttributeError) as err:
                    return rec.violation(
                        '{} gave an odd document: {!r}'.format(lang, err),
                        dict(replay, got=res.out))
                if forms[lang] != forms['py']:
                    return rec.violation(
                        'Python and {} serialize differently: {}'.format(
                            lang, model.differs(forms['py'], forms[lang])),
                        dict(replay, py=got['py'].out, other=res.out))
            for lang, res in got.items():
                for other in tri.LANGS:
                    if other == lang:
                        continue
                    fed = session.request(other, copy.deepcopy(res.out))
                    if not fed.accepted:
                        return rec.violation(
                            '{} rejects what {} serialized: {!r} {!r}'.format(
                                other, lang, fed.trouble, fed.errors[:3]),
                            dict(replay, got=res.out))
                    if neutral(schema, fed.out) != forms[lang]:
                        return rec.violation(
                            '{} changes what {} serialized: {}'.format(
                                other, lang, model.differs(
                                    forms[lang], neutral(schema, fed.out))),
                            dict(replay, got=res.out, changed=fed.out))
                    rec.count('cross_fed')
    return None


def p20():
    """Decide P20."""
    check = common.Check(
        'P20', 'a distinct (schema, document) pair with at least one key on '
        'which the three languages were compared')
    for name in ('accepted_by_all', 'rejected_by_all', 'cross_fed'):
        check.require(name, 200)
    mappings = trichecks.schemas('P20', common.scale(64, 640))
    for mapping in mappings:
        mapping['py']['path_as'] = 'str'
    trichecks.run_batches(check, item, mappings)
    return check.finish()
