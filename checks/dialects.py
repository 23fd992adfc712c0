"""Run the generated C++ code as built by several compilers and standards."""
import json
import os
import pathlib
import subprocess

from checks import wellformed
from vlib import (codegen, common, cppmake, cpprun, docgen, model, par,
                  schemagen)

MAIN = '''#include <iostream>
#include <memory>
#include <string>

#include "jsoncpp.h"

int main() {
  Json::CharReaderBuilder builder;
  Json::StreamWriterBuilder writer;
  writer.settings_["indentation"] = "";
  writer.settings_["precision"] = 17;
  std::string line;
  while (std::getline(std::cin, line)) {
    const std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
    Json::Value req;
    std::string problem;
    if (!reader->parse(
            line.data(), line.data() + line.size(), &req, &problem)) {
      std::cerr << problem << std::endl;
      return 2;
    }
    %(ns)s::%(graph)s graph;
    %(ns)s::parse::Errors errors(1000);
    %(ns)s::jsoncpp::%(lower)s_from(
        req["doc"], req["ref"].asString(), &graph, &errors);
    Json::Value resp(Json::objectValue);
    resp["errors"] = Json::Value(Json::arrayValue);
    for (const auto& err : errors.get()) {
      Json::Value item(Json::objectValue);
      item["ref"] = err.ref;
      item["message"] = err.message;
      resp["errors"].append(item);
    }
    if (errors.empty()) {
      resp["out"] = %(ns)s::jsoncpp::serialize_%(lower)s(graph);
    }
    std::cout << Json::writeString(writer, resp) << std::endl;
  }
  return 0;
}
'''
ROOT = None


def schema_for(prop, idx):
    """Draw a schema with adversarial texts."""
    rng = common.rng(prop, 'dialects', idx)
    opts = schemagen.Opts('cpp')
    if idx % 2:
        opts.texts = {
            key: wellformed.TEXTS[key] for key in ('json', 'format')}
    opts.props = (3, 7)
    mapping = schemagen.generate(rng, opts)
    mapping['cpp']['optional_as'] = rng.choice(
        ['boost::optional', 'std::experimental::optional', 'std::optional']
        if idx % 4 == 3 else
        ['boost::optional', 'std::experimental::optional'])
    if idx % 4 != 3:
        mapping['cpp']['path_as'] = 'boost::filesystem::path'
    # Trigraphs are replaced in the strict standards before C++17.
    number = rng.choice('=/\'()!<>-')
    mapping.setdefault('properties', {})
    name = 'tri_graph'
    if name not in mapping['properties']:
        mapping['properties'][name] = dict([
            ('type', 'string'), ('description', 'is read literally.'),
            ('optional', True), ('json', 'a??{}b'.format(number)),
            ('pattern', schemagen.escaped('xyz??' + number))])
    return mapping


def dialects(mapping, idx):
    """List the compilers, the standards and the optimizations."""
    stds = sorted({cppmake.standards(mapping, i) for i in range(3)})
    stds = sorted(set(stds) | {'c++17'})
    result = []
    for number, std in enumerate(stds):
        for pos, compiler in enumerate(['g++', 'clang++']):
            level = ['-O0', '-O2', '-O1', '-O3'][(idx + number + pos) % 4]
            result.append((compiler, std, level))
    if common.TIER == 'quick' and len(result) > 4:
        keep = result[-2:]
        keep += [result[idx % 2], result[2 + (idx + 1) % 2]]
        result = keep
    return result


def build(compiler, std, level, outdir):
    """Build the program."""
    name = 'prog-{}-{}'.format(compiler, std)
    # The parser of durations reads an uninitialised flag (a known finding).
    args = [compiler, '-std=' + std, level] + cppmake.INCLUDES + [
        '-w', '-ftrivial-auto-var-init=zero', 'main.cpp', 'parse.cpp', 'jsoncpp.cpp', str(ROOT / 'tz-{}.o'.format(std)),
        cpprun.JSONCPP, '-lboost_filesystem', '-lpthread', '-o', name]
    return name, cppmake.run(args, outdir)


def item(rec, pair):
    """Judge the programs of one schema."""
    # pylint: disable=too-many-locals
    prop, idx = pair
    mapping = schema_for(prop, idx)
    outdir = ROOT / 'dialect{}'.format(idx)
    workdir = ROOT / 'work{}'.format(idx)
    workdir.mkdir()
    codegen.generate(mapping, 'cpp', outdir, workdir=workdir)
    schema = model.Schema(mapping)
    (outdir / 'main.cpp').write_text(MAIN % {
        'ns': mapping['cpp']['namespace'],
        'graph': model.ucamel(mapping['name']),
        'lower': cpprun.variable(mapping['name'])
    }, encoding='utf-8')
    rng = common.rng(prop, 'dialect docs', idx)
    docs = docgen.Docs(rng, schema, 'cpp')
    cases = []
    for number in range(common.scale(40, 100)):
        doc = docs.valid()
        if prop == 'P06':
            doc = docs.mutate(doc, rng.choice([1, 1, 2, 3]))
        try:
            errs = model.Judge(schema, 'cpp').judge(doc, 'ref')
        except model.Grey:
            continue
        cases.append((doc, sorted(err.ref for err in errs), errs))
    text = ''.join(
        json.dumps({'doc': doc, 'ref': 'ref'}) + '\n' for doc, _, _ in cases)
    canonizer = model.Canon(schema, 'cpp')
    first = None
    for dialect in dialects(mapping, idx):
        name, problem = build(*dialect, outdir)
        replay = {'schema': mapping, 'compiler': dialect}
        if problem:
            rec.violation('the generated C++ code does not compile with {}: {}'
                          .format(dialect, problem), replay)
            return
        proc = subprocess.run(
            [str(outdir / name)], input=text.encode('utf-8'),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
            env=dict(os.environ, TZ='UTC', LC_ALL='C'))
        lines = proc.stdout.decode('utf-8', 'replace').splitlines()
        if proc.returncode != 0 or len(lines) != len(cases):
            bad = min(len(lines), len(cases) - 1)
            rec.violation('{}: the program ended with {}: {}'.format(
                dialect, proc.returncode, proc.stderr[:1000]),
                          dict(replay, document=cases[bad][0]))
            return
        for (doc, refs, errs), line in zip(cases, lines):
            got = json.loads(line)
            where = dict(replay, document=doc, got=got)
            rec.observe((idx, dialect[:2], json.dumps(doc)), len(doc) > 0)
            found = sorted(err['ref'] for err in got['errors'])
            if found != refs:
                lax = sorted(
                    err.ref for err in errs if err.code != 'time-range')
                rec.violation('{}: expected errors at {!r}, got {!r}'.format(
                    dialect, refs, got['errors']), where,
                              key='cpp-dateh-time-range'
                              if found == lax else None)
                continue
            # Mutated documents may have composites with nothing set.
            if not refs and prop == 'P03':
                diff = model.differs(canonizer.doc(doc), got['out'] or {})
                if diff:
                    rec.violation('{}: the document changed in the round '
                                  'trip: {}'.format(dialect, diff), where)
                    return
            rec.count('dialect_' + ('rejected' if refs else 'accepted'))
        rec.count('dialect {} {}'.format(*dialect[:2]))
        if first is not None and first != lines:
            bad = next(i for i, (one, two) in enumerate(zip(first, lines))
                       if one != two)
            rec.violation('{}: differs from another compiler: {} {}'.format(
                dialect, first[bad], lines[bad]),
                          dict(replay, document=cases[bad][0]))
            return
        first = lines


def run(check, prop, total):
    """Build the code of the schemas in several ways and run it."""
    global ROOT
    with common.scratch() as root:
        ROOT = pathlib.Path(root)
        for std in ('c++11', 'c++14', 'c++17'):
            problem = cppmake.run(
                ['clang++', '-std=' + std, '-O1', '-w', '-c'] +
                cppmake.INCLUDES +
                [str(cpprun.DEPS / 'date-2.4.1' / 'src' / 'tz.cpp'), '-o',
                 'tz-{}.o'.format(std)], ROOT)
            if problem:
                raise RuntimeError(problem)
        par.run(check, item, [(prop, idx) for idx in range(total)])
