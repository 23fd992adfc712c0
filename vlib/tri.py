"""Run the generated code of several languages in the same way."""
import json

from vlib import codegen, common, cpprun, gorun, memory, model, pyrun

LANGS = ('py', 'go', 'cpp')


class Res:
    """Represent what was observed with one document in one language."""

    def __init__(self):
        self.lang = None
        self.trouble = None
        self.panic_known = False
        self.errors = []
        self.out = None
        self.dump = None
        self.identity = []
        self.refs_seen = 0
        self.mutated = False
        self.unstable = None
        self.broken = None
        self.graph = None
        self.raced = 0

    @property
    def refs(self):
        """List the references of the errors."""
        return sorted(ref for ref, _ in self.errors)

    @property
    def accepted(self):
        """Check that the document was accepted."""
        return self.trouble is None and not self.errors


class Tri:
    """Generate and build the code of the schemas in the languages."""

    def __init__(self, check, mappings, root, langs=LANGS, variant='plain',
                 race=False):
        # pylint: disable=too-many-arguments
        self.mappings = mappings
        self.schemas = [model.Schema(mapping) for mapping in mappings]
        self.langs = langs
        self.go = None
        self.cpp = None
        self.good = {lang: set(range(len(mappings))) for lang in langs}
        if 'go' in langs:
            (root / 'go').mkdir()
            self.go = gorun.GoBatch(mappings, root / 'go', race)
            bad = {idx: 'no Go code: {}'.format(err)
                   for idx, err in self.go.failures.items()}
            for idx, text in self.go.build_isolating().items():
                bad[idx] = 'the Go code does not build: ' + text
            self.report(check, 'go', bad)
        if 'cpp' in langs:
            (root / 'cpp').mkdir()
            self.cpp = cpprun.CppBatch(mappings, root / 'cpp', variant)
            bad = {idx: 'no C++ code: {}'.format(err)
                   for idx, err in self.cpp.failures.items()}
            for idx, text in self.cpp.build().items():
                bad[idx] = 'the C++ code does not compile: ' + text
            self.report(check, 'cpp', bad)

    def report(self, check, lang, bad):
        """Report the schemas without a working code."""
        for idx in sorted(bad):
            self.good[lang].discard(idx)
            check.violation(
                'schema {}: {}'.format(idx, bad[idx]),
                {'schema': self.mappings[idx]})

    def session(self, rec, idx):
        """Open the session for a schema."""
        return Session(self, rec, idx)


class Session:
    """Run documents with the code of one schema."""

    def __init__(self, tri, rec, idx):
        self.tri = tri
        self.rec = rec
        self.idx = idx
        self.mapping = tri.mappings[idx]
        self.schema = tri.schemas[idx]
        self.py = None
        self.langs = [lang for lang in tri.langs if idx in tri.good[lang]]

    def __enter__(self):
        if 'py' in self.langs:
            try:
                self.py = pyrun.PyModule(self.mapping)
            except codegen.GenerationError as err:
                self.fail('no Python code: {}'.format(err))
            except Exception as err:  # pylint: disable=broad-except
                self.fail('the Python module can not be imported: '
                          '{}: {}'.format(type(err).__name__, err))
        return self

    def fail(self, text):
        """Report that there is no Python."""
        self.langs.remove('py')
        self.rec.violation(text, {'schema': self.mapping})

    def __exit__(self, *args):
        if self.py is not None:
            self.py.close()
        if self.tri.go is not None:
            self.tri.go.close()
        if self.tri.cpp is not None:
            self.tri.cpp.close()

    def request(self, lang, doc, ref='ref', cap=None, op=''):
        """Run the document."""
        # pylint: disable=too-many-arguments
        return getattr(self, 'run_' + lang)(doc, ref, cap, op)

    def run_py(self, doc, ref, cap, op):
        """Run in Python."""
        res = Res()
        res.lang = 'py'
        pristine = json.dumps(doc)
        got = self.py.from_jsonable(doc, ref, 10**6 if cap is None else cap)
        res.errors = got.errors
        res.mutated = json.dumps(doc) != pristine
        if got.exception is not None:
            res.trouble = 'parsing raised {!r}'.format(got.exception)
            return res
        if got.errors:
            if got.graph is not None:
                res.trouble = 'a graph despite the errors {!r}'.format(
                    got.errors[:3])
            return res
        if got.graph is None:
            res.trouble = 'neither a graph nor errors'
            return res
        res.graph = got.graph
        try:
            if 'dump' in op:
                dumper = memory.PyDump(self.schema, self.py)
                res.dump = dumper.dump(got.graph)
                res.identity = dumper.complaints
                res.refs_seen = dumper.refs
            res.out = json.loads(json.dumps(
                self.py.to_jsonable(got.graph, 'ordered' in op)))
            if 'dump' in op:
                again = json.loads(json.dumps(
                    self.py.to_jsonable(got.graph, 'ordered' in op)))
                if again != res.out:
                    res.unstable = 'the second serialization differs'
                if memory.PyDump(self.schema, self.py).dump(
                        got.graph) != res.dump:
                    res.unstable = 'serialization changed the graph'
        except Exception as err:  # pylint: disable=broad-except
            res.trouble = 'serialization raised {!r}'.format(err)
        return res

    def run_go(self, doc, ref, cap, op):
        """Run in Go."""
        res = Res()
        res.lang = 'go'
        got = self.tri.go.request(self.idx, doc, ref, cap or 0, op)
        res.errors = [(err['ref'], err['message']) for err in got['errors']]
        if got.get('panic'):
            res.trouble = '{} panicked: {}'.format(got.get('stage'),
                                                   got['panic'][:800])
            res.panic_known = ('unexpected non-empty errors' in
                               got['panic'].split('\n')[0])
            return res
        res.mutated = got['mutated']
        if res.errors:
            res.unstable = got.get('unstable')
            res.raced = got.get('raced', 0)
            return res
        if got.get('outerr') or not got.get('hasout'):
            res.trouble = 'serialization failed: {!r}'.format(
                got.get('outerr'))
            return res
        res.out = got.get('out') or {}
        res.identity = got.get('identity') or []
        res.refs_seen = got['refs']
        res.unstable = got.get('unstable')
        res.broken = got.get('broken')
        res.raced = got.get('raced', 0)
        if got.get('dump') is not None:
            res.dump = memory.from_go(self.schema, got['dump'])
        return res

    def run_cpp(self, doc, ref, cap, op):
        """Run in C++."""
        res = Res()
        res.lang = 'cpp'
        got = self.tri.cpp.request(self.idx, doc, ref,
                                   10**6 if cap is None else cap, op)
        res.errors = [(err['ref'], err['message']) for err in got['errors']]
        if got.get('crash'):
            res.trouble = 'the process crashed: ' + got['crash'][:1500]
            return res
        if got.get('exception') is not None:
            res.trouble = '{} raised {}'.format(got['stage'],
                                                got['exception'])
            return res
        res.mutated = got['mutated']
        if res.errors:
            res.unstable = got.get('unstable')
            res.raced = got.get('raced', 0)
            return res
        res.out = got['out'] or {}
        res.identity = got.get('identity') or []
        res.refs_seen = got['refs']
        res.unstable = got.get('unstable')
        res.broken = got.get('broken')
        res.raced = got.get('raced', 0)
        if got.get('dump') is not None:
            res.dump = memory.from_cpp(self.schema, got['dump'])
        return res
