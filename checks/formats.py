"""Check of the date/time formats."""
import collections
import datetime
import itertools
import json
import re
import subprocess

from checks import trichecks
from vlib import (codegen, common, gorun, memory, model, par, rules, tri)

OD = collections.OrderedDict

DATE = 'aAbBdemyYzZ'
TIME = 'HIlMPpSzZ'
KINDS = {'date': DATE + '%', 'time': TIME + '%',
         'datetime': ''.join(sorted(set(DATE + TIME))) + '%'}
# pieces of text which resemble the layouts of Go, and plain ones
LITERALS = [
    '', ' ', '-', '_', '__', '.', ',', ':', '/', 'T', 'Z', '0', '1', '2', '3',
    '4', '5', '6', '7', '8', '9', '00', '01', '02', '03', '04', '05', '06',
    '07', '08', '002', '006', '15', '2006', '_2', '__2', '_2006', 'Jan',
    'Janu', 'January', 'Januar', 'Jane', 'Mon', 'Monday', 'Mond', 'Sun',
    'Sunday', 'MST', 'MS', 'PM', 'pm', 'P', 'p', 'am', 'AM', '-07', '-0700',
    '-07:00', '-070000', '-07:00:00', 'Z07', 'Z0700', 'Z07:00', '.0', '.000',
    ',999', '.9', '.09', '.990', '+', '%%', '%%d', '%%Y', '"', "'", '\\',
    '\\n', '`', '{', '}', '{}', '{{x}}', '$', '#', '<&>', '\u00fc',
    '\u6f22', '\U0001f600', '\t', ' at ', 'o\'clock', '|', '*', '(?', '[a]',
    '^', '$', '+?', '\u2028', '~'
]
RISKY = re.compile('[0-9_PpMJSZ.,-]')

ORACLE = r'''package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"
)

func render(tokens []string, t time.Time) string {
	var b strings.Builder
	_, off := t.Zone()
	zone, _ := t.Zone()
	hour12 := t.Hour() % 12
	if hour12 == 0 {
		hour12 = 12
	}
	for _, tkn := range tokens {
		switch tkn {
		case "%%":
			b.WriteString("%")
		case "%a":
			b.WriteString(t.Weekday().String()[:3])
		case "%A":
			b.WriteString(t.Weekday().String())
		case "%b":
			b.WriteString(t.Month().String()[:3])
		case "%B":
			b.WriteString(t.Month().String())
		case "%d":
			fmt.Fprintf(&b, "%02d", t.Day())
		case "%e":
			fmt.Fprintf(&b, "%2d", t.Day())
		case "%m":
			fmt.Fprintf(&b, "%02d", int(t.Month()))
		case "%y":
			fmt.Fprintf(&b, "%02d", t.Year()%%100)
		case "%Y":
			fmt.Fprintf(&b, "%04d", t.Year())
		case "%H":
			fmt.Fprintf(&b, "%02d", t.Hour())
		case "%I":
			fmt.Fprintf(&b, "%02d", hour12)
		case "%l":
			fmt.Fprintf(&b, "%d", hour12)
		case "%M":
			fmt.Fprintf(&b, "%02d", t.Minute())
		case "%S":
			fmt.Fprintf(&b, "%02d", t.Second())
		case "%p":
			if t.Hour() < 12 {
				b.WriteString("AM")
			} else {
				b.WriteString("PM")
			}
		case "%P":
			if t.Hour() < 12 {
				b.WriteString("am")
			} else {
				b.WriteString("pm")
			}
		case "%z":
			fmt.Fprintf(&b, "+%02d%02d", off/3600, off/60%%60)
		case "%Z":
			b.WriteString(zone)
		default:
			b.WriteString(tkn)
		}
	}
	return b.String()
}

var layouts = map[string]string{
	"%a": "Mon", "%A": "Monday", "%b": "Jan", "%B": "January", "%d": "02",
	"%e": "_2", "%m": "01", "%y": "06", "%Y": "2006", "%H": "15", "%I": "03",
	"%l": "3", "%M": "04", "%P": "pm", "%p": "PM", "%S": "05", "%z": "-0700",
	"%Z": "MST", "%%": "%"}

func main() {
	zone := time.FixedZone("QRS", 3*3600+45*60)
	moments := []time.Time{
		time.Date(1987, 12, 29, 23, 58, 57, 123456789, zone),
		time.Date(2034, 9, 8, 10, 46, 38, 987654321, zone),
		time.Date(2019, 3, 31, 12, 17, 19, 100000000, zone)}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var tokens []string
		if err := json.Unmarshal(line, &tokens); err != nil {
			panic(err)
		}
		layout := ""
		for _, tkn := range tokens {
			if repl, ok := layouts[tkn]; ok {
				layout += repl
			} else {
				layout += tkn
			}
		}
		same := true
		for _, t := range moments {
			if t.Format(layout) != render(tokens, t) {
				same = false
			}
		}
		fmt.Println(same)
	}
}
'''.replace('%%100', '%100').replace('/60%%60', '/60%60')

READ = None
DIGITS = 'demyYHIlMS'


def tokens(fmt):
    """Split the format in directives and literals."""
    return re.findall(r'%[a-zA-Z%]|[^%]+', fmt, re.DOTALL)


def settings():
    """Give the head of a schema."""
    return OD([
        ('name', 'Some_graph'), ('description', 'holds date/times.'),
        ('go', OD([('package', 'somepkg')])),
        ('py', OD([('module_name', 'some_mod'), ('path_as', 'str'),
                   ('timezone_as', 'str')]))])


def schema_of(items):
    """Give the schema with the (kind, format) in the properties f<i>."""
    mapping = settings()
    props, cls, embed = OD(), OD(), OD()
    for number, (kind, fmt) in enumerate(items):
        leaf = OD([('type', kind), ('format', fmt)])
        place = number % 4
        desc = ('description', 'is one of them.')
        name = 'f{}x'.format(number)
        if place == 0:
            props[name] = OD([('type', kind), desc, ('format', fmt)])
        elif place == 1:
            cls[name] = OD([('type', 'array'), desc, ('values', leaf)])
        elif place == 2:
            embed[name] = OD([('type', 'map'), desc, ('values', leaf)])
        else:
            props[name] = OD([
                ('type', 'array'), desc, ('optional', True),
                ('values', OD([('type', 'map'), ('values', leaf)]))])
    props['inner'] = OD([('type', 'Some_embed'),
                         ('description', 'nests them.')])
    mapping['properties'] = props
    mapping['classes'] = [OD([('name', 'Some_class'),
                              ('description', 'holds some.'),
                              ('properties', cls)])]
    mapping['embeds'] = [OD([('name', 'Some_embed'),
                             ('description', 'holds some.'),
                             ('properties', embed)])]
    return mapping


def document_of(items, texts):
    """Give the document with the texts."""
    doc, cls, embed = OD(), OD(), OD()
    for number, text in enumerate(texts):
        name = 'f{}x'.format(number)
        place = number % 4
        if place == 0:
            doc[name] = text
        elif place == 1:
            cls[name] = [text, text]
        elif place == 2:
            embed[name] = {'a key': text}
        else:
            doc[name] = [{'b': text}]
    doc['inner'] = embed
    doc['some_classes'] = {'an id': cls}
    return doc


# -- acceptance of the formats -----------------------------------------------
def odd_formats():
    """Give formats to be judged by the loading alone."""
    letters = ''.join(chr(code) for code in range(33, 127))
    for letter in letters + ' \t\u00fc\u6f22\n':
        for template in ('%{}', '%Y%{}', '%H %{}', 'x%{}', '%%%{}', '%{}%%',
                         '%%{}', '%{}%{}'):
            yield template.replace('{}', letter)
    for text in ('', '%', '%%', '%%%', '%%%%', '%Y%', 'text', ' ', '%-d',
                 '%02d', '%Ey', '%Od', '%:z', '%_d', '%^a', '% Y', '%%%Y%',
                 '%Y\n%', 'no directives at all', '%d\n%m', '%d\r\n%H'):
        yield text


def loading_item(rec, part):
    """Load schemas with a format each."""
    with common.scratch() as root:
        for number, fmt in enumerate(odd_formats()):
            if number % 16 != part:
                continue
            for kind in ('date', 'time', 'datetime'):
                problem = rules.format_problem(kind, fmt)
                if kind == 'datetime' and fmt == '':
                    continue
                mapping = schema_of([(kind, fmt)] * 4)
                try:
                    codegen.load(mapping, root)
                    trouble = None
                except Exception as err:  # pylint: disable=broad-except
                    trouble = err
                rec.observe((kind, fmt), '%' in fmt)
                replay = {'schema': mapping}
                if (trouble is None) != (problem is None):
                    rec.violation(
                        'the {} format {!r} was {}: {}'.format(
                            kind, fmt, 'accepted' if trouble is None else
                            'refused', problem or trouble), replay)
                    return
                if trouble is None:
                    rec.count('loading_accepted')
                    continue
                text = str(trouble)
                if type(trouble).__name__ != 'SchemaError' or any(
                        'f{}x'.format(i) not in text for i in range(4)):
                    rec.violation(
                        'the {} format {!r} was not refused in each of the '
                        'four places: {!r}'.format(kind, fmt, trouble),
                        replay)
                    return
                rec.count('loading_refused')


# -- refusal in Go ---------------------------------------------------------
def candidates():
    """Give (kind, format) to be judged by Go itself."""
    rng = common.rng('P12', 'candidates')
    result = OD()

    def add(kind, fmt):
        if rules.format_problem(kind, fmt) is None and (
                fmt or kind != 'datetime'):
            result[(kind, fmt)] = True

    for kind, letters in KINDS.items():
        for letter in letters:
            for text in LITERALS:
                add(kind, '%' + letter + text)
                add(kind, text + '%' + letter)
    pairs = list(itertools.product(KINDS['datetime'], repeat=2))
    for left, right in pairs:
        for text in ('', ' ', '-', '_', '.', '0', '1'):
            add('datetime', '%{}{}%{}'.format(left, text, right))
    for text in LITERALS:
        for other in LITERALS:
            if RISKY.search(text + other) or rng.random() < 0.2:
                add('time', text + other + '%M')
                add('date', '%Y' + text + other)
                if common.THOROUGH:
                    add('datetime', text + '%d' + other)
    for _ in range(common.scale(3000, 30000)):
        kind = rng.choice(list(KINDS))
        add(kind, ''.join(
            rng.choice(LITERALS) if rng.random() < 0.5 else
            '%' + rng.choice(KINDS[kind]) for _ in range(rng.randint(2, 8))))
    return list(result)


def misread(items, root):
    """Let Go itself say which layouts are misread."""
    env = gorun.environment(root)
    main = root / 'gopath' / 'src' / 'oracle'
    main.mkdir(parents=True)
    (main / 'main.go').write_text(ORACLE, encoding='utf-8')
    subprocess.run(
        ['go', 'build', '-o', str(root / 'oracle'), 'oracle'], cwd=str(main),
        env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    proc = subprocess.run(
        [str(root / 'oracle')], stdout=subprocess.PIPE, check=True, env=env,
        input=''.join(json.dumps(tokens(fmt)) + '\n'
                      for _, fmt in items).encode())
    wrong = [line == 'false' for line in proc.stdout.decode().split()]
    return [bad or fractional(fmt) for bad, (_, fmt) in zip(wrong, items)]


def fractional(fmt):
    """
    Check if Go takes a directive for the fraction of the second.

    See the parsing of stdZeroSecond in the package time.
    """
    tkns = tokens(fmt)
    return any(
        first == '%S' and second in ('.', ',') and third[0] == '%'
        and third[1] in DIGITS
        for first, second, third in zip(tkns, tkns[1:], tkns[2:]))


# layouts which are refused as a precaution
CAUTION = re.compile('Sun|[0-9]|Jan|MST|PM|pm|_2|Mon')


def refusal_item(rec, job):
    """Generate the Go code for several formats at once."""
    items, wrong = job
    mapping = schema_of(items)
    refused = set()
    with common.scratch() as root:
        try:
            codegen.generate(mapping, 'go', root / 'out', workdir=root)
        except codegen.GenerationError as err:
            if err.stage != 'language':
                rec.violation('the generation failed: {}'.format(err),
                              {'schema': mapping})
                return
            refused = {int(number) for number in re.findall(
                r'/f([0-9]+)x[/:]', err.message)}
            if not refused:
                rec.violation('the generation failed: {}'.format(err),
                              {'schema': mapping})
                return
    for number, (item, bad) in enumerate(zip(items, wrong)):
        rec.observe(('go', ) + tuple(item), True)
        if bad and number not in refused:
            rec.violation(
                'Go misreads the layout of the {} format {!r}, which was '
                'accepted'.format(*item), {'schema': schema_of([item])})
            return
        literal = ''.join(tkn for tkn in tokens(item[1])
                          if not tkn.startswith('%'))
        if not bad and number in refused and not CAUTION.search(literal):
            rec.violation(
                'Go reads the layout of the {} format {!r} well, but it was '
                'refused'.format(*item), {'schema': schema_of([item])})
            return
        rec.count('go_refused' if number in refused else 'go_accepted')
        if bad:
            rec.count('go_misread')


# -- meaning of the formats ------------------------------------------------
def determined(kind, fmt, lang):
    """Check that the text determines itself in the language."""
    found = [tkn[1] for tkn in tokens(fmt) if tkn[0] == '%' and tkn != '%%']
    got = set(found)
    if len(got) != len(found):
        return False
    if got & set('aA') and not (got & set('Yy') and got & set('bBm')
                                and got & set('de')):
        return False
    if 'H' in got and got & set('Il'):
        return False
    if re.search('%[el](?:%[{}]|[0-9])'.format(DIGITS), fmt):
        # The widths of the directives are not fixed.
        return False
    if got & set('pP') and not got & set('HIl'):
        return False
    if lang == 'py':
        if got & set('elPZ'):
            return False
        if 'z' in got and kind != 'datetime':
            return False
        if 'p' in got and 'I' not in got:
            return False
        if not found:
            return False
        if re.search(r'\s', fmt):
            # Any white space is the same for strptime.
            if any(tkn[0] != '%' and tkn.strip(' ') and re.search(
                    r'[^\S ]|  ', tkn) for tkn in tokens(fmt)):
                return False
            if not fmt.isprintable() or '  ' in fmt:
                return False
    if '\x1c' <= max(fmt) <= '\x1f':
        return False
    return True


def moment(rng, fmt, lang):
    """Give a moment which the format can tell from the others."""
    year = rng.choice([1969, 1970, 1999, 2000, 2001, 2019, 2024, 2068,
                       rng.randint(1969, 2068)])
    if '%y' not in fmt:
        year = rng.choice([year, 1000, 1583, 1900, 2100, 9999,
                           rng.randint(1000, 9999)])
    month = rng.choice([1, 2, 9, 10, 12, rng.randint(1, 12)])
    day = rng.choice([1, 9, 10, 28, rng.randint(1, 28)])
    if not re.search('%[mbB]', fmt):
        month = 1
    if month in (1, 3, 5, 7, 8, 10, 12):
        day = rng.choice([day, 29, 30, 31])
    del lang
    hour = rng.choice([0, 1, 9, 10, 11, 12, 13, 22, 23])
    if not re.search('%[pPH]', fmt):
        hour = hour % 12
    return datetime.datetime(year, month, day, hour,
                             rng.choice([0, 1, 9, 10, 59, 30]),
                             rng.choice([0, 1, 9, 10, 59, 30]))


def meaning_item(rec, pair):
    """Parse and write moments with the code of one schema."""
    local, idx = pair
    lang, items = READ[idx]
    rng = common.rng('P12', 'moments', idx)
    with trichecks.CURRENT.session(rec, local) as session:
        if lang not in session.langs:
            return
        for _ in range(common.scale(12, 40)):
            texts = [model.format_dt(fmt, moment(rng, fmt, lang))
                     for _, fmt in items]
            doc = document_of(items, texts)
            res = session.request(lang, doc, op='dump')
            replay = {'schema': session.mapping, 'language': lang,
                      'document': doc}
            rec.observe((idx, lang, json.dumps(texts)), True)
            if not res.accepted:
                rec.violation(
                    '{}: texts of the formats were refused: {!r} {!r}'.format(
                        lang, res.trouble, res.errors[:3]), replay)
                return
            diff = model.differs(doc, res.out)
            if not diff:
                diff = memory.differs(
                    memory.expected(session.schema, lang, doc), res.dump,
                    lang)
            if diff:
                rec.violation('{}: {}'.format(lang, diff), replay)
                return
            rec.count('moments_' + lang, len(items))


def p12():
    """Decide P12."""
    # pylint: disable=too-many-locals
    global READ
    check = common.Check(
        'P12', 'a distinct format judged by an independent reader of the '
        'directives or by the time package of Go, or a distinct set of texts '
        'parsed and written back')
    check.require('loading_accepted', 300)
    check.require('loading_refused', 1000)
    check.require('go_accepted', 1000)
    check.require('go_misread', 1000)
    check.require('moments_py', 5000)
    check.require('moments_go', 5000)
    par.run(check, loading_item, range(16))
    items = candidates()
    with common.scratch() as root:
        wrong = misread(items, root)
    if len(wrong) != len(items):
        raise RuntimeError('the oracle gave {} answers to {}'.format(
            len(wrong), len(items)))
    rng = common.rng('P12', 'order')
    order = list(range(len(items)))
    rng.shuffle(order)
    size = 16
    par.run(check, refusal_item, [
        ([items[i] for i in order[start:start + size]],
         [wrong[i] for i in order[start:start + size]])
        for start in range(0, len(order), size)])

    READ = []
    mappings = []
    per_lang = common.scale(560, 5600)
    for lang in ('py', 'go'):
        good = [items[i] for i in order
                if determined(items[i][0], items[i][1], lang)
                and (lang == 'py' or not wrong[i])
                and (lang == 'py' or not CAUTION.search(''.join(
                    tkn for tkn in tokens(items[i][1]) if tkn[0] != '%')))]
        # all the short ones and a sample of the others
        short = [item for item in good if len(tokens(item[1])) == 1]
        rest = [item for item in good if len(tokens(item[1])) > 1]
        chosen = short + rest[:per_lang - len(short)]
        for start in range(0, len(chosen), 20):
            part = chosen[start:start + 20]
            READ.append((lang, part))
            mapping = schema_of(part)
            if lang == 'py':
                # not for Go, which may refuse the formats
                del mapping['go']
            mappings.append(mapping)
    count = sum(1 for lang, _ in READ if lang == 'py')
    run_lang(check, mappings, 'py', 0, count)
    run_lang(check, mappings, 'go', count, len(READ))
    return check.finish()


def run_lang(check, mappings, lang, first, last):
    """Run the schemas of the language."""
    with common.scratch() as root:
        trichecks.CURRENT = tri.Tri(check, mappings[first:last], root,
                                    (lang, ))
        par.run(check, meaning_item,
                [(i - first, i) for i in range(first, last)])
