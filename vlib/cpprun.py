"""Build and run the generated C++ code."""
import json
import multiprocessing.pool
import os
import pathlib
import select
import subprocess
import time

from vlib import codegen, common, model

SHIM = common.VERIF / 'cppshim'
DEPS = common.REPO / 'test_dependencies' / 'cpp'
JSONCPP = '/usr/lib/x86_64-linux-gnu/libjsoncpp.so.25'

BASE_FLAGS = [
    '-std=c++17', '-w', '-DUSE_OS_TZDB=1', '-isystem', str(SHIM),
    '-I' + str(DEPS / 'optional' / 'include'), '-isystem',
    str(DEPS / 'date-2.4.1' / 'include')
]
VARIANTS = {
    # address and undefined-behaviour sanitizers
    'asan': [
        '-O0', '-g1', '-fno-omit-frame-pointer',
        '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
        '-ftrivial-auto-var-init=zero'
    ],
    # the same with another content of the uninitialised memory
    'pattern': [
        '-O0', '-g1', '-fno-omit-frame-pointer',
        '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
        '-ftrivial-auto-var-init=pattern'
    ],
    # the race detector
    'tsan': [
        '-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread',
        '-ftrivial-auto-var-init=zero'
    ],
    # without sanitizers, the fastest to build
    'plain': ['-O0', '-ftrivial-auto-var-init=zero'],
    # as users would build it, deterministic for the uninitialised flag
    'release': ['-O1', '-ftrivial-auto-var-init=zero'],
}

HANDLER = r'''
namespace w%(idx)d {
#include "%(dir)s/parse.cpp"
#include "%(dir)s/jsoncpp.cpp"
}
namespace drv {
%(fields)s
namespace {
struct Register%(idx)d {
  Register%(idx)d() {
    namespace ns = w%(idx)d::%(ns)s;
    handlers()[%(idx)d].run = [](const Json::Value& request,
                                 Json::Value* response) {
      run<ns::%(graph)s, ns::parse::Errors>(
          request, response,
          [](const Json::Value& doc, const std::string& ref, ns::%(graph)s* graph,
             ns::parse::Errors* errors) {
            ns::jsoncpp::%(lower)s_from(doc, ref, graph, errors);
          },
          [](const ns::%(graph)s& graph) {
            return ns::jsoncpp::serialize_%(lower)s(graph);
          },
          [](Context& ctx, const ns::%(graph)s& graph) { %(enlist)s },
          [](const ns::%(graph)s& graph) { return %(tamper)s false; });
    };
  }
} register%(idx)d;
}  // namespace
}  // namespace drv
'''


def variable(name):
    """Give the name of the functions of a composite."""
    # "Some_URL" -> "some_url"; "CamelBack" -> "camelback"
    return name.lower()


def quote(text):
    """Quote as a C++ string."""
    out = []
    for byte in text.encode('utf-8'):
        if chr(byte).isalnum() or chr(byte) in ' _-':
            out.append(chr(byte))
        else:
            out.append('\\{:03o}'.format(byte))
    return '"{}"'.format(''.join(out))


class CppBatch:
    """Generate, build and run a batch of schemas."""

    def __init__(self, mappings, root, variant='asan', group=4):
        # pylint: disable=too-many-locals
        self.mappings = mappings
        self.root = pathlib.Path(root)
        self.variant = variant
        self.flags = BASE_FLAGS + VARIANTS[variant]
        self.group = group
        self.failures = {}
        self.sources = {}
        self.proc = None
        self.binary = self.root / 'driver-{}'.format(variant)
        for i, mapping in enumerate(mappings):
            outdir = self.root / 's{}'.format(i)
            try:
                codegen.generate(mapping, 'cpp', outdir, workdir=self.root)
            except codegen.GenerationError as err:
                self.failures[i] = err
                continue
            self.sources[i] = self.handler(i, mapping, outdir)

    @staticmethod
    def handler(idx, mapping, outdir):
        """Generate the code of the driver."""
        schema = model.Schema(mapping)
        namespace = mapping['cpp']['namespace']
        fields = []
        for comp in schema.composites():
            full = 'w{}::{}::{}'.format(idx, namespace,
                                        model.ucamel(comp.name))
            lines = ['template <> struct Fields<{}> {{'.format(full),
                     '  static constexpr bool composite = true;',
                     '  template <typename F>',
                     '  static void each(const {}& c, F& f) {{'.format(full)]
            for prop in comp.props:
                lines.append('    f({}, c.{});'.format(
                    quote(prop.name), prop.name.lower()))
            if comp is schema.graph:
                for cls in schema.classes.values():
                    lines.append('    f({}, c.{});'.format(
                        quote('registry ' + cls.name), cls.registry))
            lines += ['  }', '};']
            if comp.kind == 'class':
                lines += [
                    'template <> struct Instance<{}> {{'.format(full),
                    '  static const char* name() {{ return {}; }}'.format(
                        quote(comp.name)), '};'
                ]
            fields.append('\n'.join(lines))
        return HANDLER % {
            'idx': idx,
            'dir': str(outdir),
            'ns': namespace,
            'graph': model.ucamel(mapping['name']),
            'lower': variable(mapping['name']),
            'fields': '\n'.join(fields),
            'enlist': ' '.join(
                'enlist(ctx, graph.{});'.format(cls.registry)
                for cls in schema.classes.values()),
            'tamper': ' '.join(
                'tamper(graph.{}) ||'.format(cls.registry)
                for cls in schema.classes.values()),
        }

    def compile(self, args, timeout=400):
        """Run the compiler."""
        proc = subprocess.run(
            ['clang++'] + self.flags + args, cwd=str(self.root),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
            env=dict(os.environ, TMPDIR=str(self.root)))
        return proc.returncode, proc.stdout.decode('utf-8', 'replace')

    def build(self):
        """
        Build the driver.

        :return: {index: diagnostics} of the schemas left out
        """
        tag = self.variant
        pch = 'driver-{}.pch'.format(tag)
        code, text = self.compile(
            ['-x', 'c++-header', str(SHIM / 'driver.h'), '-o', pch])
        if code != 0:
            raise RuntimeError('the header does not compile:\n' + text[:4000])
        broken = {}

        def unit(name, indices, path=None):
            if path is None:
                path = self.root / (name + '.cpp')
                path.write_text(
                    '\n'.join(self.sources[i] for i in indices),
                    encoding='utf-8')
            obj = '{}-{}.o'.format(name, tag)
            args = ['-c', str(path), '-o', obj]
            if name != 'tz':
                args = ['-include-pch', pch] + args
            code, text = self.compile(args)
            return obj, code, text

        def work(job):
            name, indices, path = job
            obj, code, text = unit(name, indices, path)
            if code == 0:
                return [obj]
            if path is not None:
                raise RuntimeError('{} does not compile:\n{}'.format(
                    path, text[:4000]))
            if len(indices) == 1:
                broken[indices[0]] = text[:2500]
                return []
            objs = []
            for i in indices:
                objs += work(('single{}'.format(i), [i], None))
            return objs

        indices = sorted(self.sources)
        jobs = [('tz', [], DEPS / 'date-2.4.1' / 'src' / 'tz.cpp'),
                ('main', [], SHIM / 'main.cpp')]
        jobs += [('unit{}'.format(pos), indices[pos:pos + self.group], None)
                 for pos in range(0, len(indices), self.group)]
        with multiprocessing.pool.ThreadPool(common.CPUS) as pool:
            objs = [obj for part in pool.map(work, jobs, chunksize=1)
                    for obj in part]
        code, text = self.compile(
            objs + [JSONCPP, '-lboost_filesystem', '-lpthread', '-o',
                    str(self.binary)])
        if code != 0:
            raise RuntimeError('linking failed:\n' + text[:4000])
        for i in broken:
            del self.sources[i]
        return broken

    # -- running --------------------------------------------------------
    def err_path(self):
        """Locate the standard error of the driver in this process."""
        return self.root / 'driver.{}.{}.err'.format(self.variant, os.getpid())

    def start(self):
        """Start the driver."""
        env = dict(
            os.environ, TZ='UTC', LC_ALL='C',
            ASAN_OPTIONS='detect_leaks=1:exitcode=66:hard_rss_limit_mb=3000:'
            'malloc_context_size=8:detect_stack_use_after_return=1:'
            'strict_string_checks=1:handle_abort=1',
            UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1',
            LSAN_OPTIONS='exitcode=67',
            TSAN_OPTIONS='halt_on_error=1:exitcode=68:report_bugs=1')
        self.proc = subprocess.Popen(
            [str(self.binary)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=open(str(self.err_path()), 'wb'), env=env,
            cwd=str(self.root))

    def request(self, idx, doc=None, ref='ref', cap=1000, op='', timeout=60,
                **extra):
        """Send the document through the driver."""
        # pylint: disable=too-many-arguments
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        req = {'s': idx, 'ref': ref, 'cap': cap, 'op': op, 'doc': doc}
        req.update(extra)
        line = json.dumps(req) + '\n'
        try:
            self.proc.stdin.write(line.encode('utf-8'))
            self.proc.stdin.flush()
        except BrokenPipeError:
            return self.died()
        deadline = time.time() + timeout
        ready, _, _ = select.select([self.proc.stdout], [], [],
                                    max(0.0, deadline - time.time()))
        if not ready:
            self.proc.kill()
            self.proc.wait()
            self.proc = None
            return {
                'crash': 'no answer within {} s'.format(timeout),
                'timeout': True, 'errors': [], 'exact_refs': []
            }
        out = self.proc.stdout.readline()
        if not out.endswith(b'\n'):
            return self.died()
        resp = json.loads(out.decode('utf-8', 'replace'))
        if 'driver' in resp:
            raise RuntimeError('driver: ' + resp['driver'])
        resp['exact_refs'] = sorted(err['ref'] for err in resp['errors'])
        return resp

    def died(self):
        """Report that the driver died."""
        code = self.proc.wait()
        text = self.err_path().read_bytes().decode('utf-8', 'replace')
        self.proc = None
        return {
            'crash': 'process ended with {}: {}'.format(code, text[:3000]),
            'errors': [], 'exact_refs': []
        }

    def finish(self):
        """
        End the driver regularly.

        :return: (exit code, standard error); None if it was not running
        """
        if self.proc is None:
            return None
        try:
            self.proc.stdin.write(b'exit\n')
            self.proc.stdin.close()
        except BrokenPipeError:
            pass
        try:
            code = self.proc.wait(timeout=60)
        except subprocess.TimeoutExpired:
            self.proc.kill()
            self.proc.wait()
            code = None
        self.proc = None
        return code, self.err_path().read_bytes().decode('utf-8', 'replace')

    def close(self):
        """Stop the driver."""
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
