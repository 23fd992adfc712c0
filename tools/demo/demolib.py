"""Generate code with mapry from /repo and run it in a scratch directory."""
import contextlib
import importlib
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.getcwd())
import mapry.main  # noqa: E402  pylint: disable=wrong-import-position
import mapry.parse  # noqa: E402  pylint: disable=wrong-import-position

D = 'is a demo.'


@contextlib.contextmanager
def scratch():
    """Provide a scratch directory."""
    pth = pathlib.Path(tempfile.mkdtemp(prefix='demo_'))
    try:
        yield pth
    finally:
        shutil.rmtree(str(pth), ignore_errors=True)


def fail(text):
    """Report the failure."""
    print('FAIL: ' + text)
    sys.exit(1)


def expect(condition, text):
    """Fail unless the condition holds."""
    if not condition:
        fail(text)


def schema(properties, classes=(), embeds=(), name='Some_graph', **cpp):
    """Give a schema with settings for all the languages."""
    result = {
        'name': name, 'description': D,
        'cpp': dict({
            'namespace': 'demo', 'path_as': 'std::filesystem::path',
            'optional_as': 'std::optional', 'datetime_library': 'ctime'
        }, **cpp),
        'go': {'package': 'demo'},
        'py': {'module_name': 'demo_mod', 'path_as': 'str',
               'timezone_as': 'str'},
        'properties': properties
    }
    if classes:
        result['classes'] = list(classes)
    if embeds:
        result['embeds'] = list(embeds)
    return result


def prop(a_type, **rest):
    """Give a property."""
    return dict([('type', a_type), ('description', D)], **rest)


def generate(mapping, lang, outdir):
    """Generate the code as the command line does."""
    outdir.mkdir(parents=True, exist_ok=True)
    pth = outdir.parent / 'schema.json'
    pth.write_text(json.dumps(mapping))
    loaded = mapry.parse.schema_from_json_file(path=pth)
    func = getattr(mapry.main, 'generate_' + lang)
    err = io.StringIO()
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(err):
        code = func(schema=loaded, outdir=outdir)
    return code, err.getvalue()


class Py:
    """Import the generated Python code."""

    def __init__(self, mapping, root):
        name = mapping['py']['module_name']
        code, err = generate(mapping, 'py', root / name)
        expect(code == 0, 'no Python code: ' + err)
        sys.path.insert(0, str(root))
        importlib.invalidate_caches()
        lower = mapping['name'].lower()
        self.base = importlib.import_module(name)
        self.errors = importlib.import_module(name + '.parse').Errors
        self.from_ = getattr(
            importlib.import_module(name + '.fromjsonable'), lower + '_from')
        self.to_ = getattr(
            importlib.import_module(name + '.tojsonable'),
            'serialize_' + lower)

    def parse(self, doc, ref='#', cap=100):
        """Parse the document; give the graph and the references."""
        errors = self.errors(cap)
        graph = self.from_(doc, ref, errors)
        return graph, [err.ref for err in errors.values()]


def go_run(mapping, main, root, args=(), tests=False):
    """Build and run the generated Go code with the main program."""
    src = root / 'gopath' / 'src'
    code, err = generate(mapping, 'go', src / 'demo' / mapping['go'][
        'package'])
    expect(code == 0, 'no Go code: ' + err)
    (src / 'prog').mkdir()
    (src / 'prog' / 'main.go').write_text(main)
    cache = root / 'cache'
    if pathlib.Path('/opt/vp/cache/go-build').is_dir():
        shutil.copytree('/opt/vp/cache/go-build', str(cache))
    env = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    env.update(GOPATH=str(root / 'gopath'), GOCACHE=str(cache),
               GO111MODULE='off', GOPROXY='off', GOTOOLCHAIN='local',
               GOFLAGS='-trimpath', GOTELEMETRY='off', HOME=str(root),
               TZ='UTC')
    if tests:
        cmd = ['go', 'test', '-vet=off', 'demo/' + mapping['go']['package']]
    else:
        cmd = ['go', 'run', 'prog'] + list(args)
    proc = subprocess.run(cmd, cwd=str(src), env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=200)
    return proc.returncode, proc.stdout.decode('utf-8', 'replace')


GO_MAIN = '''package main

import (
	"encoding/json"
	"fmt"
	"os"

	"demo/demo"
)

// usage: prog DOCUMENT CAP
func main() {
	var doc interface{}
	if err := json.Unmarshal([]byte(os.Args[1]), &doc); err != nil {
		panic(err)
	}
	var cap uint64
	fmt.Sscan(os.Args[2], &cap)
	target := &demo.SomeGraph{}
	errors := demo.NewErrors(cap)
	demo.SomeGraphFromJSONable(doc, "#", target, errors)
	refs := []string{}
	messages := []string{}
	for _, e := range errors.Values() {
		refs = append(refs, e.Ref)
		messages = append(messages, e.Message)
	}
	result := map[string]interface{}{"errors": refs, "messages": messages}
	if len(refs) == 0 {
		out, err := demo.SomeGraphToJSONable(target)
		if err != nil {
			panic(err)
		}
		result["out"] = out
	}
	data, err := json.Marshal(result)
	if err != nil {
		panic(err)
	}
	fmt.Println(string(data))
}
'''


def go_roundtrip(mapping, doc, root, cap=0):
    """Parse and serialize the document in Go."""
    code, out = go_run(mapping, GO_MAIN, root, [json.dumps(doc), str(cap)])
    expect(code == 0, 'Go: ' + out[-2000:])
    return json.loads(out.strip().splitlines()[-1])


CPP_MAIN = '''#include <iostream>
#include <json/json.h>
#include "jsoncpp.h"

// usage: prog DOCUMENT CAP
int main(int argc, char** argv) {
  const std::string text(argv[1]);
  Json::CharReaderBuilder builder;
  const std::unique_ptr<Json::CharReader> reader(builder.newCharReader());
  Json::Value doc;
  std::string errs;
  if (!reader->parse(text.data(), text.data() + text.size(), &doc, &errs)) {
    std::cerr << errs << std::endl;
    return 2;
  }
  demo::SomeGraph graph;
  demo::parse::Errors errors(std::stoul(argv[2]));
  demo::jsoncpp::some_graph_from(doc, "#", &graph, &errors);
  Json::Value result(Json::objectValue);
  result["errors"] = Json::Value(Json::arrayValue);
  result["messages"] = Json::Value(Json::arrayValue);
  for (const auto& e : errors.get()) {
    result["errors"].append(e.ref);
    result["messages"].append(e.message);
  }
  if (errors.empty()) {
    result["out"] = demo::jsoncpp::serialize_some_graph(graph);
  }
  Json::StreamWriterBuilder writer;
  writer.settings_["indentation"] = "";
  std::cout << Json::writeString(writer, result) << std::endl;
  return 0;
}
'''


def cpp_roundtrip(mapping, doc, root, cap=1000, std='c++17'):
    """Compile the generated C++ code, parse and serialize the document."""
    here = pathlib.Path(__file__).resolve().parent
    out = root / 'cpp'
    code, err = generate(mapping, 'cpp', out)
    expect(code == 0, 'no C++ code: ' + err)
    (out / 'main.cpp').write_text(CPP_MAIN)
    lib = next(p for p in ['/usr/lib/x86_64-linux-gnu/libjsoncpp.so',
                           '/usr/lib/x86_64-linux-gnu/libjsoncpp.so.25',
                           '/lib/x86_64-linux-gnu/libjsoncpp.so.25']
               if os.path.exists(p))
    proc = subprocess.run(
        ['g++', '-std=' + std, '-O0', '-I' + str(here), 'main.cpp',
         'parse.cpp', 'jsoncpp.cpp', '-o', 'prog', lib],
        cwd=str(out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=280)
    expect(proc.returncode == 0,
           'C++: ' + proc.stdout.decode('utf-8', 'replace')[:2000])
    proc = subprocess.run(
        [str(out / 'prog'), json.dumps(doc), str(cap)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    expect(proc.returncode == 0,
           'C++: ' + proc.stdout.decode('utf-8', 'replace')[:2000])
    return json.loads(proc.stdout.decode('utf-8'))
