"""Check of the messages of the errors in the generated code."""
import fractions
import json
import re

from checks import trichecks
from vlib import common, docgen, model, tri

#: words which name the kind of a JSON value in one of the languages
KINDS = {
    'null': ('null', 'nil', 'none'),
    'boolean': ('bool', ),
    'number': ('int', 'float', 'double', 'real', 'number'),
    'string': ('str', ),
    'array': ('list', 'array', '[]'),
    'object': ('dict', 'map', 'object'),
}

EXPECTED = {
    'boolean': 'boolean', 'integer': 'number', 'float': 'number',
    'array': 'array', 'map': 'object', 'object': 'object',
}

LAYOUTS = {
    '%a': 'Mon', '%A': 'Monday', '%b': 'Jan', '%B': 'January', '%d': '02',
    '%e': '_2', '%m': '01', '%y': '06', '%Y': '2006', '%H': '15', '%I': '03',
    '%l': '3', '%M': '04', '%P': 'pm', '%p': 'PM', '%S': '05', '%z': '-0700',
    '%Z': 'MST', '%%': '%'
}

NUMBER_RE = re.compile(
    r'[-+]?[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?')


class Reasons(model.Judge):
    """Judge the documents and note down the reasons."""

    def judge(self, doc, ref):
        """Judge and give the list of (reference, code, detail)."""
        self.reasons = []
        super().judge(doc, ref)
        return self.reasons

    def add(self, ref, code, *detail):
        """Note down the reason."""
        super().add(ref, code, *detail)
        self.reasons.append((ref, code, detail))


def kind_of(value):
    """Give the kind of the JSON value."""
    if value is None:
        return 'null'
    if isinstance(value, bool):
        return 'boolean'
    if isinstance(value, (int, float)):
        return 'number'
    if isinstance(value, str):
        return 'string'
    return 'array' if isinstance(value, list) else 'object'


def numbers(text):
    """List the numbers in the text."""
    return [fractions.Fraction(got) for got in NUMBER_RE.findall(text)]


def near(number, text, exact):
    """Check that the number is in the text."""
    number = fractions.Fraction(number)
    slack = 0 if exact else fractions.Fraction(6, 10**7) + abs(
        number) / 10**12
    return any(abs(got - number) <= slack for got in numbers(text))


def names(text, message):
    """Check that the message has the text as it is, or quoted."""
    return text in message or any(
        quoted[1:-1] in message
        for quoted in (repr(text), json.dumps(text),
                       json.dumps(text, ensure_ascii=False)))


def without(texts, message):
    """Leave only the words of mapry in the message."""
    for text in sorted(texts, key=len, reverse=True):
        for form in (text, repr(text)[1:-1], json.dumps(text)[1:-1]):
            if form:
                message = message.replace(form, ' ')
    return message


def complaint(lang, code, detail, message):
    """
    Check that the message names what was expected and what was met.

    :return: what is wrong, None if nothing is
    """
    # pylint: disable=too-many-return-statements,too-many-branches
    known = [item for item in detail if isinstance(item, str)]
    left, got, right = message.partition('got')
    if code == 'missing':
        if detail[0] not in message:
            return 'the missing property {!r} is not named'.format(detail[0])
    elif code in ('pattern', 'id'):
        if detail[0] not in message:
            return 'the pattern {!r} is not named'.format(detail[0])
        if not names(detail[1], message):
            return 'the value {!r} is not named'.format(detail[1])
    elif code == 'ref':
        plain = detail[0].replace('_', '').lower()
        if plain not in message.replace('_', '').lower():
            return 'the class {} is not named'.format(detail[0])
        if not names(detail[1], message):
            return 'the identifier {!r} is not named'.format(detail[1])
    elif code == 'format':
        a_type, value = detail
        known = [value]
        if a_type['type'] in model.DEFAULT_FORMATS:
            fmt = a_type.get('format', model.DEFAULT_FORMATS[a_type['type']])
            known.append(fmt)
            if lang == 'go':
                fmt = ''.join(LAYOUTS.get(token, token)
                              for token in model.split_format(fmt))
                known.append(fmt)
            if fmt not in message:
                return 'the format {!r} is not named'.format(fmt)
        if not names(value, message):
            return 'the value {!r} is not named'.format(value)
    elif code == 'size':
        a_type, value = detail
        low, high = a_type.get('minimum_size'), a_type.get('maximum_size')
        if low is not None and len(value) < low:
            word, limit = 'min', low
        else:
            word, limit = 'max', high
        if not got or word not in left.lower() or not near(
                limit, left, True):
            return 'the {}imum size {} is not named'.format(word, limit)
        if not near(len(value), right, True):
            return 'the size {} is not named'.format(len(value))
    elif code == 'bound':
        if not detail:
            return None
        end, a_type, value = detail
        op = ('>' if end == 'minimum' else '<') + (
            '' if a_type.get('exclusive_' + end, False) else '=')
        exact = a_type['type'] == 'integer'
        if not got or not near(a_type[end], left, exact):
            return 'the {} {!r} is not named'.format(end, a_type[end])
        if re.findall('[<>]=?', left) != [op]:
            return 'the comparison {} is not named'.format(op)
        if not near(value, right, exact):
            return 'the value {!r} is not named'.format(value)
    elif code == 'type':
        wanted, value = detail
        expected = EXPECTED.get(wanted, 'string')
        known = []
        if not got or not any(
                word in left.lower() for word in KINDS[expected]):
            return 'the expected {} is not named'.format(wanted)
        if any(word in right.lower() for word in KINDS[kind_of(value)]):
            pass
        elif not (kind_of(value) == 'number' and near(value, right, False)):
            return 'the kind of the value {!r} is not named'.format(value)
        if kind_of(value) != 'object':
            rest = right.lower()
            if lang == 'go':
                rest = rest.replace('[]interface {}', 'array')
            for kind in ('boolean', 'string', 'array', 'object'):
                if kind != kind_of(value) and any(
                        word in rest for word in KINDS[kind]):
                    return '{!r} is named as another kind'.format(value)
    rest = without(known, message)
    for usual in ('interface {}', 'interface{}'):
        rest = rest.replace(usual, '')
    if re.search('[{}%]|<[0-9a-z_.]+ (object|at) ', rest):
        return 'the message has leftovers of its formatting'
    return None


def item(rec, pair):
    """Inspect the messages of the code of one schema."""
    # pylint: disable=too-many-locals
    local, idx = pair
    rng = common.rng('P26', 'faults', idx)
    with trichecks.CURRENT.session(rec, local) as session:
        for lang in list(session.langs):
            docs = docgen.Docs(common.rng('P26', lang, idx), session.schema,
                               lang)
            for _ in range(common.scale(60, 150)):
                doc = docs.mutate(docs.valid(), rng.choice([1, 1, 1, 2]))
                try:
                    reasons = Reasons(session.schema, lang).judge(doc, 'ref')
                except model.Grey:
                    rec.count('unspecified')
                    continue
                if not reasons:
                    rec.count('valid')
                    continue
                replay = {'schema': session.mapping, 'language': lang,
                          'document': doc}
                res = session.request(lang, doc)
                rec.observe((idx, lang, json.dumps(doc)), True)
                if res.trouble and res.panic_known:
                    # Listed for P05: ask for the first error only.
                    res = session.request(lang, doc, cap=1)
                    if len(res.errors) == 1:
                        reasons = [reason for reason in reasons
                                   if reason[0] == res.errors[0][0]]
                        if len(set(map(repr, reasons))) != 1:
                            continue
                        reasons = reasons[:1]
                if res.trouble or len(res.errors) != len(reasons):
                    # Judged by P04 to P06.
                    rec.count('other_errors')
                    continue
                for ref, code, detail in reasons:
                    mine = [text for got, text in res.errors if got == ref]
                    wrong = [complaint(lang, code, detail, text)
                             for text in mine]
                    if wrong and None not in wrong:
                        rec.violation(
                            '{}: {} ({}): {!r}'.format(
                                lang, wrong[0], code, mine[0]), replay)
                        return
                    rec.count('messages_{}_{}'.format(lang, code))


def p26():
    """Decide P26."""
    check = common.Check(
        'P26', 'a distinct (schema, language, document) triple with at least '
        'one error whose message was compared with the broken constraint')
    for lang in tri.LANGS:
        for code in ('type', 'missing', 'bound', 'pattern', 'format', 'size',
                     'ref', 'id'):
            check.require('messages_{}_{}'.format(lang, code))
    trichecks.run_batches(
        check, item, trichecks.schemas('P26', common.scale(72, 640)))
    return check.finish()
