"""Checks which run the generated code of several languages."""
import json

from vlib import common, docgen, memory, model, par, schemagen, tri

CURRENT = None
MAPPINGS = None


def schemas(prop, total, **options):
    """Generate schemas with the settings of all the languages."""
    result = []
    for idx in range(total):
        rng = common.rng(prop, 'schema', idx)
        opts = schemagen.Opts('cpp', cross=True, **options)
        if idx % 5 == 4:
            opts.depth = 5
        result.append(schemagen.generate(rng, opts))
    return result


def run_batches(check, item, mappings, langs=tri.LANGS, batch=96,
                variant='plain', race=False):
    """Build the code in batches and run the items."""
    # pylint: disable=too-many-arguments
    global CURRENT
    for start in range(0, len(mappings), batch):
        part = mappings[start:start + batch]
        with common.scratch() as root:
            CURRENT = tri.Tri(check, part, root, langs, variant, race)
            for lang in langs:
                check.count('built_' + lang, len(CURRENT.good[lang]))
            par.run(check, item, [(i, start + i) for i in range(len(part))])


# -- P07 ------------------------------------------------------------------
def p07_item(rec, pair):
    """Inspect the parsed graphs of one schema in memory."""
    local, idx = pair
    with CURRENT.session(rec, local) as session:
        for lang in list(session.langs):
            docs = docgen.Docs(common.rng('P07', lang, idx), session.schema,
                               lang)
            for number in range(common.scale(25, 60)):
                doc = docs.valid(max_ids=8 if number % 3 == 0 else 4)
                replay = {'schema': session.mapping, 'language': lang,
                          'document': doc}
                res = session.request(lang, doc, op='dump')
                rec.observe((idx, lang, json.dumps(doc)), len(doc) > 0)
                if not res.accepted or res.dump is None:
                    rec.violation(
                        '{}: a valid document gave no graph: {!r} {!r}'.format(
                            lang, res.trouble, res.errors[:3]), replay)
                    break
                if res.identity:
                    rec.violation('{}: {}'.format(lang, res.identity), replay)
                    break
                diff = memory.differs(
                    memory.expected(session.schema, lang, doc), res.dump,
                    lang)
                if diff:
                    rec.violation('{}: the graph in memory differs: {}'.format(
                        lang, diff), replay)
                    break
                rec.count('graphs_' + lang)
                rec.count('references_' + lang, res.refs_seen)


def p07():
    """Decide P07."""
    check = common.Check(
        'P07', 'a distinct (schema, language, document) triple with at least '
        'one key whose graph was walked in memory')
    for lang in tri.LANGS:
        check.require('graphs_' + lang, 100)
        check.require('references_' + lang, 500)
    run_batches(
        check, p07_item,
        schemas('P07', common.scale(64, 640), classes=(2, 5), embeds=(1, 4),
                props=(2, 7), class_weight=9))
    return check.finish()
