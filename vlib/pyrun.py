"""Run the generated Python code."""
import importlib
import pathlib
import signal
import sys
import tempfile
import shutil

from vlib import codegen


class Watchdog(Exception):
    """Signal that the code under test takes too long."""


def _on_alarm(signum, frame):
    raise Watchdog()


class time_limit:  # pylint: disable=invalid-name
    """Limit the time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)


class Result:
    """Represent what was observed when parsing."""

    def __init__(self, graph, errors, exception):
        self.graph = graph
        self.errors = errors
        self.exception = exception

    @property
    def refs(self):
        """List the references of the errors."""
        return sorted(ref for ref, _ in self.errors)


class PyModule:
    """Represent the imported generated code."""

    def __init__(self, mapping, keep=False):
        self.mapping = mapping
        self.root = pathlib.Path(tempfile.mkdtemp(prefix='mapryvf_py_'))
        self.name = mapping['py']['module_name']
        self.keep = keep
        self.before = set(sys.modules)
        sys.path.insert(0, str(self.root))
        try:
            outdir = self.root
            parts = self.name.split('.')
            for part in parts[:-1]:
                outdir = outdir / part
                outdir.mkdir()
                (outdir / '__init__.py').write_text('')
            outdir = outdir / parts[-1]
            self.outdir = outdir
            codegen.generate(mapping, 'py', outdir, workdir=self.root)
            importlib.invalidate_caches()
            self.base = importlib.import_module(self.name)
            self.parse = importlib.import_module(self.name + '.parse')
            self.fromjsonable = importlib.import_module(
                self.name + '.fromjsonable')
            self.tojsonable = importlib.import_module(
                self.name + '.tojsonable')
        except BaseException:
            self.close()
            raise

    def detach(self):
        """Allow another module of the same name to be imported."""
        if str(self.root) in sys.path:
            sys.path.remove(str(self.root))
        top = self.name.split('.')[0]
        for name in list(sys.modules):
            if name not in self.before and (name == top
                                            or name.startswith(top + '.')):
                del sys.modules[name]

    def close(self):
        """Remove the traces."""
        self.detach()
        sys.path_importer_cache.pop(str(self.root), None)
        if not self.keep:
            shutil.rmtree(str(self.root), ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def from_jsonable(self, doc, ref='ref', cap=1000):
        """Parse the document."""
        errors = self.parse.Errors(cap)
        func = getattr(self.fromjsonable,
                       self.mapping['name'].lower() + '_from')
        exception = None
        graph = None
        try:
            with time_limit(20):
                graph = func(doc, ref, errors)
        except Watchdog:
            exception = TimeoutError('parsing takes more than 20 s')
        except Exception as err:  # pylint: disable=broad-except
            exception = err
        return Result(graph,
                      [(err.ref, err.message) for err in errors.values()],
                      exception)

    def to_jsonable(self, graph, ordered=False):
        """Serialize the graph."""
        func = getattr(self.tojsonable,
                       'serialize_' + self.mapping['name'].lower())
        with time_limit(20):
            return func(graph, ordered)
