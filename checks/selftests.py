"""Run the tests which are generated along with the code (P24)."""
import datetime
import doctest
import io
import json
import subprocess
import tempfile

from vlib import codegen, common, gorun, model, par, pyrun, schemagen

# The generated code words these messages differently than the tests expect:
# test -> output of the test
LISTED = {
    'ExampleDurationFromString_invalid':
    'got:\nfailed to match the duration pattern\nwant:\n'
    'failed to match the duration pattern on: some wrong text\n',
    'ExampleDurationFromString_overflow':
    'got:\noverflow in nanoseconds\nwant:\n'
    'overflows in nanoseconds: P300Y\n',
}


def uses(mapping, name):
    """Check that the type is used anywhere in the schema."""
    return any(a_type['type'] == name
               for _, _, a_type in model.Schema(mapping).all_types())


def schema_for(lang, idx):
    """Generate a schema; most of them use durations in some place."""
    rng = common.rng('P24', lang, idx)
    opts = schemagen.Opts(lang, embeds=(0, 3), classes=(0, 3), props=(0, 4))
    mapping = schemagen.generate(rng, opts)
    if idx % 3 != 2:
        # Put the duration into a single place, at any depth.
        wanted = {'type': 'duration'}
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            wanted = {'type': rng.choice(['array', 'map']), 'values': wanted}
        wanted['description'] = 'holds the time.'
        if rng.random() < 0.4:
            wanted['optional'] = True
        comps = [mapping] + list(mapping.get('classes', [])) + list(
            mapping.get('embeds', []))
        comp = rng.choice(comps)
        props = comp.setdefault('properties', {})
        props['quantum_zz'] = {'type': wanted['type'],
                               'description': wanted['description']}
        for key, value in wanted.items():
            props['quantum_zz'].setdefault(key, value)
    return mapping


# -- Python ----------------------------------------------------------------
class Values(doctest.OutputChecker):
    """Compare the values: their representation depends on the version."""

    def check_output(self, want, got, optionflags):
        """Compare the texts, or what they evaluate to."""
        if super().check_output(want, got, optionflags):
            return True
        try:
            # pylint: disable=eval-used
            names = {'datetime': datetime}
            return eval(want, dict(names)) == eval(got, dict(names))
        except Exception:  # pylint: disable=broad-except
            return False


def py_item(rec, idx):
    """Run the examples in the documentation strings."""
    mapping = schema_for('py', idx)
    replay = {'language': 'py', 'schema': mapping}
    try:
        module = pyrun.PyModule(mapping)
    except codegen.GenerationError as err:
        return rec.violation('not generated: {}'.format(err), replay)
    except Exception as err:  # pylint: disable=broad-except
        return rec.violation('not importable: {!r}'.format(err), replay)
    with module:
        found = 0
        for part in (module.base, module.parse, module.fromjsonable,
                     module.tojsonable):
            stream = io.StringIO()
            finder = doctest.DocTestFinder()
            runner = doctest.DocTestRunner(Values(), verbose=False)
            for test in finder.find(part, part.__name__):
                runner.run(test, out=stream.write)
            got = (runner.failures, runner.tries)
            if got[0]:
                return rec.violation(
                    'an example in {} fails: {}'.format(
                        part.__name__, stream.getvalue()[:800]), replay)
            found += got[1]
        if uses(mapping, 'duration') and not found:
            return rec.violation('no examples for the durations', replay)
        rec.observe(('py', idx, found), found > 0)
        rec.count('py_examples', found)
        rec.count('py_modules')
    return None


# -- Go --------------------------------------------------------------------
def go_tests(src, env, pattern):
    """Run the tests: import path -> (passed names, failures, output)."""
    with tempfile.TemporaryFile() as out:
        proc = subprocess.run(
            ['go', 'test', '-vet=off', '-count=1', '-json', '-p',
             str(common.CPUS), pattern],
            cwd=str(src), env=env, stdout=out, stderr=subprocess.PIPE,
            timeout=800)
        out.seek(0)
        lines = out.read().decode('utf-8', 'replace').splitlines()
    result = {}
    for line in lines:
        try:
            event = json.loads(line)
        except ValueError:
            continue
        path = event.get('Package') or event.get('ImportPath', '').split()[0]
        entry = result.setdefault(path, {'pass': set(), 'fail': set(),
                                         'done': None, 'output': '',
                                         'texts': {}})
        action = event['Action']
        if action in ('output', 'build-output'):
            entry['output'] += event.get('Output', '')
            if 'Test' in event:
                entry['texts'][event['Test']] = entry['texts'].get(
                    event['Test'], '') + event.get('Output', '')
        elif action in ('pass', 'fail', 'skip') and 'Test' not in event:
            entry['done'] = action
        elif action in ('pass', 'fail'):
            entry[action].add(event['Test'])
        elif action == 'build-fail':
            entry['done'] = 'fail'
    if not result:
        raise RuntimeError('go test: ' + proc.stderr.decode()[:2000])
    return result


def go_batch(check, mappings, start):
    """Run the generated tests of the packages."""
    with common.scratch() as root:
        env = gorun.environment(root)
        env['TZ'] = 'America/New_York' if start % 2 else 'UTC'
        src = root / 'gopath' / 'src'
        src.mkdir(parents=True)
        paths = {}
        for i, mapping in enumerate(mappings):
            path = 'batch/s{}/{}'.format(i, mapping['go']['package'])
            try:
                codegen.generate(mapping, 'go', src / path, workdir=root)
            except codegen.GenerationError as err:
                check.violation('no Go code: {}'.format(err),
                                {'schema': mapping})
                continue
            paths['{}'.format(path)] = mapping
        results = go_tests(src, env, './batch/...')
        for path, mapping in paths.items():
            found = [entry for name, entry in results.items()
                     if name == path or name.endswith('/' + path)]
            replay = {'language': 'go', 'schema': mapping}
            listed = set()
            for entry in found:
                for name in sorted(entry['fail']):
                    if LISTED.get(name) and (
                            LISTED[name] in entry['texts'].get(name, '')):
                        entry['fail'].discard(name)
                        listed.add(name)
                        check.violation(
                            'the generated {} fails'.format(name), replay,
                            key='go-example-messages')
                if listed and entry['pass'] and not entry['fail']:
                    entry['done'] = 'pass'
            if not found or any(entry['done'] == 'fail' or entry['fail']
                                for entry in found):
                check.violation(
                    'the generated Go tests fail: {}'.format(
                        ' '.join(entry['output'] for entry in found)[:1500]),
                    replay)
                continue
            passed = sum(len(entry['pass']) for entry in found)
            check.observe(('go', start, path, repr(mapping)), passed > 0)
            check.count('go_tests', passed)
            check.count('go_packages')
            if uses(mapping, 'duration') and not passed:
                check.violation('no Go tests for the durations', replay)


def vet_finding(check):
    """Probe the rejection of the examples by go vet."""
    mapping = {
        'name': 'Graph', 'description': 'is a probe.',
        'go': {'package': 'probe'},
        'properties': {'a': {'type': 'duration',
                             'description': 'is a probe.'}}}
    with common.scratch() as root:
        env = gorun.environment(root)
        src = root / 'gopath' / 'src'
        codegen.generate(mapping, 'go', src / 'probe', workdir=root)
        got = subprocess.run(
            ['go', 'test', './probe'], cwd=str(src), env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        text = got.stdout.decode('utf-8', 'replace')
        if got.returncode != 0 and 'refers to unknown identifier' not in text:
            check.violation('go test fails: ' + text[:1500],
                            {'schema': mapping})
            return
        check.finding('go-vet-examples', got.returncode != 0,
                      'go vet refuses the generated examples: '
                      + text[:300], {'schema': mapping})


def p24():
    """Decide P24."""
    check = common.Check(
        'P24', 'a distinct schema with at least one generated test or '
        'documentation example which was run')
    check.require('py_examples', 500)
    check.require('go_tests', 100)
    par.run(check, py_item, range(common.scale(250, 3000)))
    total = common.scale(60, 600)
    for start in range(0, total, 60):
        go_batch(check, [
            schema_for('go', idx)
            for idx in range(start, min(total, start + 60))], start)
    vet_finding(check)
    return check.finish()
