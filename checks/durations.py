"""Check of the durations."""
import collections
import datetime
import fractions
import re

from vlib import codegen, common, memory, model, par, pyrun, tri

OD = collections.OrderedDict

MAPPING = OD([
    ('name', 'Some_graph'), ('description', 'holds durations.'),
    ('cpp', OD([('namespace', 'some_ns'),
                ('path_as', 'std::filesystem::path'),
                ('optional_as', 'std::optional'),
                ('datetime_library', 'ctime')])),
    ('go', OD([('package', 'somepkg')])),
    ('py', OD([('module_name', 'some_mod'), ('path_as', 'str'),
               ('timezone_as', 'str')])),
    ('properties', OD([
        ('ds', OD([('type', 'array'), ('description', 'lists them.'),
                   ('values', OD([('type', 'duration')]))]))])),
])
CURRENT = None
SIZE = 60
UNITS = [('Y', 'Y'), ('Mo', 'M'), ('W', 'W'), ('D', 'D'), ('H', 'H'),
         ('Mi', 'M'), ('S', 'S')]
LIMIT = {'go': 2**63 - 1, 'cpp': 2**63 - 1}
PY_LIMIT = fractions.Fraction(
    datetime.timedelta.max.days * 86400 + 86399) + fractions.Fraction(
        999999, 10**6)


def assemble(sign, parts):
    """Write the duration with {unit key: number text}."""
    text = sign + 'P'
    text += ''.join(parts[key] + letter for key, letter in UNITS[:4]
                    if key in parts)
    clock = ''.join(parts[key] + letter for key, letter in UNITS[4:]
                    if key in parts)
    return text + ('T' + clock if clock else '')


def systematic():
    """Give all the combinations of units and the malformed neighbours."""
    result = []
    for mask in range(1, 128):
        parts = {key: str(number + 1) for number, (key, _) in
                 enumerate(UNITS) if mask >> number & 1}
        for sign in ('', '-', '+'):
            result.append(assemble(sign, parts))
        result.append(assemble('-', {key: value + '.5'
                                     for key, value in parts.items()}))
        result.append(assemble('', {key: '0' for key in parts}))
    for key, _ in UNITS:
        for number in ['0', '00', '01', '1.', '.1', '1.0', '0.0', '1,5', '-1',
                       '+1', '1e1', '10', ' 1', '1 ', '', '1_0', '\u0661',
                       '0.1', '0.000001', '0.000000001', '0.0000001',
                       '1.9999999', '1.0000000000', '999', '0x1', '1..2']:
            for sign in ('', '-'):
                result.append(assemble(sign, {key: number}))
    for text in ['P', 'PT', '-P', '+P', '-PT', '', 'T', 'P1', 'PT1', '1D',
                 'P1DT', 'P1T1S', 'PT1H1H', 'P1D1D', 'P1D1Y', 'PT1S1M',
                 'PT1M1H', 'P1H', 'P1S', 'PT1D', 'PT1Y', 'PT1W', 'p1d',
                 'P1d', 'P 1D', ' P1D', 'P1D ', '--P1D', '+-P1D', 'P-1D',
                 'P1D\t', 'PP1D', 'P1DD', 'P1YT', 'P1W1M', 'P1M1M', 'PT1M1M',
                 'P1MT1M', 'P1D\x00', '\u22121PT1S', 'P1D/P1D', 'R/P1D',
                 '\nP1D', 'P1\nD']:
        result.append(text)
    return result


def boundaries():
    """Give the texts at the limits of the representations."""
    result = []
    for value in [2**63 - 1, 2**63, 2**63 + 1, 2**63 - 10**9, 2**63 + 10**9,
                  2**62, 2**53, 2**53 + 1, 1, 10**9 - 1, 10**9, 10**9 + 1,
                  86400 * 10**9 - 1, 86400 * 10**9, 3600 * 10**9 - 1,
                  60 * 10**9 - 1, 60 * 10**9, 2**31 * 10**9, 999999999]:
        for delta in range(-2, 3):
            if value + delta >= 0:
                secs, rest = divmod(value + delta, 10**9)
                text = 'PT{}.{:09}S'.format(secs, rest)
                result += [text, '-' + text]
                text = 'PT{}.{:06}S'.format(secs, rest // 1000)
                result += [text, '-' + text]
    for days in [106751, 106752, 106750, 999999999, 1000000000, 999999998,
                 10**12, 2**31, 2**53]:
        result += ['P{}D'.format(days), '-P{}D'.format(days),
                   'P{}W'.format(days), 'P{}DT23H59M59S'.format(days),
                   '-P{}DT24H'.format(days)]
    for number in ['292', '293', '291.9', '3507', '15250', '15251', '2562047',
                   '2562048', '153722867', '153722868', '9223372036',
                   '9223372037', '9' * 12, '9' * 17, '9' * 22, '9' * 30]:
        for key, _ in UNITS:
            result += [assemble('', {key: number}),
                       assemble('-', {key: number}),
                       assemble('', {key: number, 'S': '0.000001'})]
    return result


def randomly(rng, count):
    """Give random texts."""
    result = []
    for _ in range(count):
        parts = {}
        wide = rng.random() < 0.3
        for key, _ in UNITS:
            if rng.random() < 0.45:
                top = {'Y': 280, 'Mo': 3000, 'W': 15000, 'D': 106000,
                       'H': 2500000, 'Mi': 150000000, 'S': 9 * 10**9}[key]
                text = str(rng.choice([
                    0, 1, 9, 10, 59, 60, rng.randint(0, top),
                    rng.randint(0, top) if not wide else
                    rng.randint(0, top * 10**3)]))
                if rng.random() < (0.5 if key == 'S' else 0.2):
                    text += '.' + ''.join(
                        rng.choice('0123456789')
                        for _ in range(rng.choice([1, 2, 3, 6, 6, 7, 9, 10])))
                parts[key] = text
        text = assemble(rng.choice(['', '', '-', '+']), parts)
        if rng.random() < 0.15:
            place = rng.randrange(len(text) + 1)
            cut = rng.choice([0, 1])
            text = text[:place] + rng.choice(
                ['', '0', '1', '.', 'T', 'P', '-', 'D', 'S', 'x']) + text[
                    place + cut:]
        result.append(text)
    return result


def verdict(lang, text):
    """Give True if accepted, False if refused, None if unspecified."""
    # pylint: disable=too-many-return-statements
    got = model.duration_seconds(text)
    if got is None:
        return None if text.endswith('\n') else False
    secs, digits = got
    if digits > model.DURATION_DIGITS[lang]:
        return False
    if lang == 'cpp' and any(
            len(number.partition('.')[0]) > 18
            for number in re.findall('[0-9.]+', text)):
        # std::stol and std::stod raise (cpp-duration-exception).
        return None
    exact = re.match(r'^[-+]?P?T[0-9.]+S\Z', text.replace('PT', 'T', 1))
    if lang == 'py':
        if abs(secs) > PY_LIMIT + 2 * 86400:
            return False
        return None if abs(secs) > PY_LIMIT - 2 * 86400 else True
    ticks = abs(secs) * 10**9
    if exact:
        return ticks <= LIMIT[lang]
    if ticks > 2**63 + 2**33:
        return False
    return None if ticks > 2**63 - 2**33 else True


def p11_item(rec, job):
    """Parse the texts."""
    lang, texts = job
    with CURRENT.session(rec, 0) as session:
        if lang not in session.langs:
            return
        judged = [(text, verdict(lang, text)) for text in texts]
        rec.count('unspecified', sum(1 for _, good in judged if good is None))
        judged = [(text, good) for text, good in judged if good is not None]
        res = session.request(lang, {'ds': [text for text, _ in judged]})
        replay = {'schema': MAPPING, 'language': lang}
        if res.trouble:
            rec.violation('{}: {}'.format(lang, res.trouble),
                          dict(replay, texts=[text for text, _ in judged]))
            return
        refused = set(res.refs)
        for number, (text, good) in enumerate(judged):
            ref = 'ref/ds/{}'.format(number)
            rec.observe((lang, text), True)
            if (ref in refused) == good:
                rec.violation(
                    '{}: the duration {!r} was {}'.format(
                        lang, text, 'refused' if good else 'accepted'),
                    dict(replay, text=text))
                return
            rec.count('{}_{}'.format('accepted' if good else 'refused', lang))
        accepted = [text for text, good in judged if good]
        doc = {'ds': accepted}
        res = session.request(lang, doc, op='dump')
        if not res.accepted:
            rec.violation('{}: the good durations alone gave {!r} {!r}'.format(
                lang, res.trouble, res.errors[:3]),
                          dict(replay, texts=accepted))
            return
        diff = memory.differs(memory.expected(session.schema, lang, doc),
                              res.dump, lang)
        if not diff:
            diff = model.differs(model.Canon(session.schema, lang).doc(doc),
                                 res.out)
        if diff:
            rec.violation('{}: {}'.format(lang, diff),
                          dict(replay, texts=accepted))
            return
        again = session.request(lang, res.out, op='dump')
        if again.out != res.out or again.dump != res.dump:
            rec.violation(
                '{}: the written durations are read otherwise: {!r} and '
                '{!r} {!r}'.format(lang, res.out, again.out, again.errors[:3]),
                dict(replay, texts=accepted))
            return
        rec.count('survived_' + lang, len(accepted))


def exactly(rec, part):
    """Serialize given durations in Python and parse them again."""
    rng = common.rng('P11', 'timedelta', part)
    values = [
        datetime.timedelta(0), datetime.timedelta.max, datetime.timedelta.min,
        datetime.timedelta.resolution, -datetime.timedelta.resolution,
        datetime.timedelta(days=-1, microseconds=1),
        datetime.timedelta(seconds=-1, microseconds=1)
    ] if part == 0 else []
    for _ in range(common.scale(200, 2000)):
        values.append(datetime.timedelta(
            days=rng.choice([0, 0, -1, 1, rng.randint(-999999, 999999)]),
            seconds=rng.choice([0, 0, 1, 59, 60, 3599, 3600, 86399,
                                rng.randint(0, 86399)]),
            microseconds=rng.choice([0, 0, 1, 10, 999999, 100000,
                                     rng.randint(0, 999999)])))
    with pyrun.PyModule(MAPPING) as module:
        base = module.from_jsonable({'ds': []}).graph
        base.ds = list(values)
        texts = module.to_jsonable(base)['ds']
        back = module.from_jsonable({'ds': texts})
        got = back.graph.ds if back.graph is not None else back.errors[:3]
        if got != values:
            rec.violation('Python: the durations were not read back',
                          {'values': values[:50], 'texts': texts[:50]})
        for value, text in zip(values, texts):
            rec.observe(('timedelta', text), True)
            exact = fractions.Fraction(
                value // datetime.timedelta.resolution, 10**6)
            read = model.duration_seconds(text)
            if read is None or read[0] != exact:
                rec.violation('Python: {!r} was written as {!r}'.format(
                    value, text), {'text': text})
                break
            rec.count('written_py')


def p11():
    """Decide P11."""
    global CURRENT
    check = common.Check(
        'P11', 'a distinct (language, duration text) pair judged by exact '
        'rational arithmetic')
    for lang in tri.LANGS:
        check.require('accepted_' + lang, 1000)
        check.require('refused_' + lang, 400)
        check.require('survived_' + lang, 1000)
    check.require('written_py', 500)
    texts = systematic() + boundaries() + randomly(
        common.rng('P11'), common.scale(4000, 80000))
    texts = list(OD.fromkeys(texts))
    jobs = [(lang, texts[start:start + SIZE]) for lang in tri.LANGS
            for start in range(0, len(texts), SIZE)]
    with common.scratch() as root:
        CURRENT = tri.Tri(check, [MAPPING], root)
        par.run(check, p11_item, jobs)
        par.run(check, exactly, range(8))
        try:
            with pyrun.PyModule(MAPPING) as module:
                doc = {'ds': ['P1D\n']}
                check.finding(
                    'py-duration-newline',
                    not module.from_jsonable(doc).errors,
                    'Python: a duration followed by a newline was accepted',
                    {'schema': MAPPING, 'document': doc})
        except codegen.GenerationError:
            pass
    return check.finish()
