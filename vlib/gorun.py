"""Build and run the generated Go code."""
import json
import os
import pathlib
import re
import select
import shutil
import subprocess
import time

from vlib import codegen, common, model

GO_ENV_CACHE = pathlib.Path('/opt/vp/cache/go-build')

DRIVER = r'''package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Err struct {
	Ref     string `json:"ref"`
	Message string `json:"message"`
}

type Request struct {
	S    int             `json:"s"`
	Doc  json.RawMessage `json:"doc"`
	Ref  string          `json:"ref"`
	Cap  uint64          `json:"cap"`
	Op   string          `json:"op"`
	Adds [][]string      `json:"adds"`
}

type Step struct {
	Size  int  `json:"size"`
	Full  bool `json:"full"`
	Empty bool `json:"empty"`
}

type Response struct {
	Panic    string      `json:"panic,omitempty"`
	Stage    string      `json:"stage,omitempty"`
	Errors   []Err       `json:"errors"`
	Out      interface{} `json:"out,omitempty"`
	OutErr   string      `json:"outerr,omitempty"`
	HasOut   bool        `json:"hasout"`
	Full     bool        `json:"full"`
	Empty    bool        `json:"empty"`
	Identity []string    `json:"identity,omitempty"`
	Refs     int         `json:"refs"`
	Mutated  bool        `json:"mutated"`
	Unstable string      `json:"unstable,omitempty"`
	Dump     interface{} `json:"dump,omitempty"`
	Broken   string      `json:"broken,omitempty"`
	Steps    []Step      `json:"steps,omitempty"`
	Raced    int         `json:"raced"`
}

type Handler struct {
	// maps class struct names to the registry fields
	Registries map[string]string
	// mandatory class references: struct name + "." + field
	Required map[string]bool
	Parse    func(doc interface{}, ref string, cap uint64, resp *Response) interface{}
	Serialize func(graph interface{}) (map[string]interface{}, error)
	History  func(req *Request, resp *Response)
}

var handlers = map[int]*Handler{}

func guard(stage string, resp *Response, f func()) {
	defer func() {
		if r := recover(); r != nil {
			resp.Panic = fmt.Sprint(r)
			if resp.Panic == "" {
				resp.Panic = "empty panic"
			}
			stack := string(debug.Stack())
			if len(stack) > 3000 {
				stack = stack[:3000]
			}
			resp.Panic += "\n" + stack
			resp.Stage = stage
		}
	}()
	f()
}

type walker struct {
	h      *Handler
	root   reflect.Value
	resp   *Response
}

func (w *walker) complain(format string, args ...interface{}) {
	if len(w.resp.Identity) < 5 {
		w.resp.Identity = append(w.resp.Identity, fmt.Sprintf(format, args...))
	}
}

func (w *walker) walk(v reflect.Value, path string, owner bool) {
	t := v.Type()
	if t == reflect.TypeOf(time.Time{}) || t == reflect.TypeOf(time.Location{}) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		name := t.Elem().Name()
		if field, ok := w.h.Registries[name]; ok && t.Elem().Kind() == reflect.Struct && !owner {
			if v.IsNil() {
				return
			}
			w.resp.Refs++
			id := v.Elem().FieldByName("ID").String()
			reg := w.root.FieldByName(field)
			entry := reg.MapIndex(reflect.ValueOf(id))
			if !entry.IsValid() {
				w.complain("%s refers to %s %q which is not registered", path, name, id)
			} else if entry.Pointer() != v.Pointer() {
				w.complain("%s refers to another instance of %s %q than the registered one", path, name, id)
			}
			return
		}
		if v.IsNil() {
			return
		}
		w.walk(v.Elem(), path, owner)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			f := v.Field(i)
			fpath := path + "." + t.Field(i).Name
			if w.h.Required[t.Name()+"."+t.Field(i).Name] && f.Kind() == reflect.Ptr && f.IsNil() {
				w.complain("%s is a nil mandatory reference", fpath)
			}
			isReg := false
			if v == w.root || path == "" {
				for name, field := range w.h.Registries {
					if field == t.Field(i).Name {
						isReg = true
						iter := f.MapRange()
						for iter.Next() {
							key := iter.Key().String()
							if iter.Value().IsNil() {
								w.complain("%s[%q] is nil", fpath, key)
								continue
							}
							inst := iter.Value().Elem()
							if inst.FieldByName("ID").String() != key {
								w.complain("%s[%q] has the ID %q (class %s)", fpath, key, inst.FieldByName("ID").String(), name)
							}
							w.walk(inst, fmt.Sprintf("%s[%q]", fpath, key), true)
						}
					}
				}
			}
			if !isReg {
				w.walk(f, fpath, false)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Ptr && e.IsNil() {
				w.complain("%s[%d] is nil", path, i)
			}
			w.walk(e, fmt.Sprintf("%s[%d]", path, i), false)
		}
	case reflect.Map:
		iter := v.MapRange()
		for iter.Next() {
			if iter.Value().Kind() == reflect.Ptr && iter.Value().IsNil() {
				w.complain("%s[%q] is nil", path, iter.Key().String())
			}
			w.walk(iter.Value(), fmt.Sprintf("%s[%q]", path, iter.Key().String()), false)
		}
	}
}

// breakIDs changes the identifier of the n-th instance.
func breakIDs(h *Handler, root reflect.Value, op string) string {
	n, _ := strconv.Atoi(op[strings.Index(op, "break")+5:])
	var fields []string
	for _, field := range h.Registries {
		fields = append(fields, field)
	}
	sort.Strings(fields)
	var found [][2]string
	for _, field := range fields {
		var keys []string
		for _, key := range root.FieldByName(field).MapKeys() {
			keys = append(keys, key.String())
		}
		sort.Strings(keys)
		for _, key := range keys {
			found = append(found, [2]string{field, key})
		}
	}
	if len(found) == 0 {
		return ""
	}
	place := found[n%len(found)]
	instance := root.FieldByName(place[0]).MapIndex(reflect.ValueOf(place[1]))
	instance.Elem().FieldByName("ID").SetString(place[1] + "-other")
	return place[0]
}

func refsOf(errs []Err) string {
	var refs []string
	for _, e := range errs {
		refs = append(refs, e.Ref)
	}
	sort.Strings(refs)
	return strings.Join(refs, "\x00")
}

// race parses the same document and serializes the same graph in goroutines.
func race(h *Handler, req *Request, doc interface{}, shared interface{}, want *Response) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	complain := func(text string) {
		mu.Lock()
		defer mu.Unlock()
		want.Unstable = text
	}
	expected := refsOf(want.Errors)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				var resp Response
				var graph interface{}
				guard("race", &resp, func() {
					graph = h.Parse(doc, req.Ref, req.Cap, &resp)
				})
				if resp.Panic != "" {
					complain("concurrent parsing panicked: " + resp.Panic)
					return
				}
				if refsOf(resp.Errors) != expected {
					complain("concurrent parsing gave other errors")
					return
				}
				if shared == nil || graph == nil {
					continue
				}
				if (g+k)%2 == 1 {
					graph = shared
				}
				guard("race", &resp, func() {
					out, err := h.Serialize(graph)
					if err != nil {
						complain("concurrent serialization: " + err.Error())
					} else if !reflect.DeepEqual(out, want.Out) {
						complain("concurrent serialization differs")
					}
				})
				if resp.Panic != "" {
					complain("concurrent serialization panicked: " + resp.Panic)
					return
				}
				mu.Lock()
				want.Raced++
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
}

func dump(h *Handler, v reflect.Value, top bool) interface{} {
	t := v.Type()
	if t == reflect.TypeOf(time.Time{}) {
		return v.Interface().(time.Time).UTC().Format("2006-01-02T15:04:05.999999999")
	}
	if t == reflect.TypeOf(time.Duration(0)) {
		return v.Int()
	}
	switch t.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if t.Elem() == reflect.TypeOf(time.Location{}) {
			return v.Interface().(*time.Location).String()
		}
		if _, ok := h.Registries[t.Elem().Name()]; ok && !top && t.Elem().Kind() == reflect.Struct {
			return v.Elem().FieldByName("ID").String()
		}
		return dump(h, v.Elem(), false)
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			isReg := false
			if top {
				for _, field := range h.Registries {
					if field == t.Field(i).Name {
						isReg = true
						r := map[string]interface{}{}
						iter := v.Field(i).MapRange()
						for iter.Next() {
							r[iter.Key().String()] = dump(h, iter.Value().Elem(), false)
						}
						m[t.Field(i).Name] = r
					}
				}
			}
			if !isReg {
				m[t.Field(i).Name] = dump(h, v.Field(i), false)
			}
		}
		return m
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		l := make([]interface{}, 0)
		for i := 0; i < v.Len(); i++ {
			l = append(l, dump(h, v.Index(i), false))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]interface{}{}
		iter := v.MapRange()
		for iter.Next() {
			m[iter.Key().String()] = dump(h, iter.Value(), false)
		}
		return m
	}
	return v.Interface()
}

func handle(req *Request) (resp Response) {
	h := handlers[req.S]
	if req.Op == "history" {
		guard("history", &resp, func() { h.History(req, &resp) })
		return
	}
	var doc, pristine interface{}
	if err := json.Unmarshal(req.Doc, &doc); err != nil {
		resp.Panic = "driver: " + err.Error()
		resp.Stage = "driver"
		return
	}
	json.Unmarshal(req.Doc, &pristine)
	var graph interface{}
	guard("parse", &resp, func() {
		graph = h.Parse(doc, req.Ref, req.Cap, &resp)
	})
	if !reflect.DeepEqual(doc, pristine) {
		resp.Mutated = true
	}
	if resp.Panic == "" && len(resp.Errors) > 0 && strings.Contains(req.Op, "race") {
		race(h, req, doc, nil, &resp)
		resp.Raced++
	}
	if resp.Panic != "" || len(resp.Errors) > 0 || graph == nil {
		return
	}
	root := reflect.ValueOf(graph).Elem()
	w := walker{h: h, root: root, resp: &resp}
	guard("walk", &resp, func() { w.walk(root, "", true) })
	if strings.Contains(req.Op, "dump") {
		guard("dump", &resp, func() { resp.Dump = dump(h, root, true) })
	}
	guard("serialize", &resp, func() {
		out, err := h.Serialize(graph)
		if err != nil {
			resp.OutErr = err.Error()
			return
		}
		resp.Out = out
		resp.HasOut = true
		again, err := h.Serialize(graph)
		if err != nil {
			resp.Unstable = "second serialization: " + err.Error()
		} else if !reflect.DeepEqual(out, again) {
			resp.Unstable = "second serialization differs"
		}
		w2 := walker{h: h, root: root, resp: &resp}
		w2.walk(root, "", true)
		resp.Refs /= 2
	})
	if strings.Contains(req.Op, "race") && resp.Panic == "" && resp.HasOut {
		race(h, req, doc, graph, &resp)
	}
	if strings.Contains(req.Op, "break") && resp.Panic == "" {
		guard("break", &resp, func() {
			field := breakIDs(h, root, req.Op)
			if field == "" {
				return
			}
			out, err := h.Serialize(graph)
			if err == nil {
				resp.Broken = "accepted: " + field
			} else if out != nil {
				resp.Broken = "target with error: " + field
			} else {
				resp.Broken = "refused"
			}
		})
	}
	return
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "errors" {
		return
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var req Request
		if err := json.Unmarshal(line, &req); err != nil {
			fmt.Fprintln(os.Stderr, "driver: bad request", err)
			os.Exit(3)
		}
		resp := handle(&req)
		data, err := json.Marshal(resp)
		if err != nil {
			resp.Out = nil
			resp.Dump = nil
			resp.Panic = "marshal: " + err.Error()
			resp.Stage = "marshal"
			data, _ = json.Marshal(resp)
		}
		out.Write(data)
		out.WriteByte('\n')
		out.Flush()
	}
}
'''

HANDLER = r'''package main

import pkg "%(path)s"

func init() {
	handlers[%(idx)d] = &Handler{
		Registries: map[string]string{%(registries)s},
		Required:   map[string]bool{%(required)s},
		Parse: func(doc interface{}, ref string, cap uint64, resp *Response) interface{} {
			target := &pkg.%(graph)s{}
			errors := pkg.NewErrors(cap)
			pkg.%(graph)sFromJSONable(doc, ref, target, errors)
			for _, e := range errors.Values() {
				resp.Errors = append(resp.Errors, Err{Ref: e.Ref, Message: e.Message})
			}
			resp.Full = errors.Full()
			resp.Empty = errors.Empty()
			return target
		},
		Serialize: func(graph interface{}) (map[string]interface{}, error) {
			return pkg.%(graph)sToJSONable(graph.(*pkg.%(graph)s))
		},
		History: func(req *Request, resp *Response) {
			errors := pkg.NewErrors(req.Cap)
			snapshot := func() {
				resp.Steps = append(resp.Steps, Step{
					Size: len(errors.Values()), Full: errors.Full(),
					Empty: errors.Empty()})
			}
			snapshot()
			for _, add := range req.Adds {
				errors.Add(add[0], add[1])
				snapshot()
			}
			for _, e := range errors.Values() {
				resp.Errors = append(resp.Errors, Err{Ref: e.Ref, Message: e.Message})
			}
		},
	}
}
'''


def environment(root, warm=True):
    """Set up the environment for the Go toolchain."""
    env = {
        key: value
        for key, value in os.environ.items() if not key.startswith('GO')
    }
    cache = pathlib.Path(root) / 'gocache'
    if not cache.exists():
        if warm and GO_ENV_CACHE.is_dir():
            shutil.copytree(str(GO_ENV_CACHE), str(cache), symlinks=True)
        else:
            cache.mkdir()
    (pathlib.Path(root) / 'tmp').mkdir(exist_ok=True)
    env.update({
        'GOPROXY': 'off', 'GOSUMDB': 'off', 'GOTOOLCHAIN': 'local',
        'GO111MODULE': 'off', 'GOFLAGS': '-trimpath',
        'GOCACHE': str(cache), 'GOTELEMETRY': 'off',
        'GOPATH': str(pathlib.Path(root) / 'gopath'), 'TZ': 'UTC',
        'GOTMPDIR': str(pathlib.Path(root) / 'tmp'),
        'HOME': str(root), 'XDG_CONFIG_HOME': str(root)
    })
    return env


def quote(text):
    """Quote as a Go string."""
    return json.dumps(text)


class GoBatch:
    """Generate, build and run a batch of schemas."""

    def __init__(self, mappings, root, race=False):
        self.race = race
        self.mappings = mappings
        self.root = pathlib.Path(root)
        self.env = environment(root)
        if race:
            self.env['CGO_ENABLED'] = '1'
            self.env['GORACE'] = 'halt_on_error=1 exitcode=66'
        self.failures = {}
        self.build_output = ''
        self.proc = None
        src = self.root / 'gopath' / 'src'
        main = src / 'driver'
        main.mkdir(parents=True)
        self.src = src
        self.paths = {}
        for i, mapping in enumerate(mappings):
            path = 'batch/s{}/{}'.format(i, mapping['go']['package'])
            try:
                codegen.generate(mapping, 'go', src / path,
                                 workdir=self.root)
            except codegen.GenerationError as err:
                self.failures[i] = err
                continue
            self.paths[i] = path
            (main / 'handler{}.go'.format(i)).write_text(
                self.handler(i, mapping, path), encoding='utf-8')
        (main / 'main.go').write_text(DRIVER, encoding='utf-8')

    @staticmethod
    def handler(idx, mapping, path):
        """Generate the code of the driver."""
        schema = model.Schema(mapping)
        registries = ', '.join(
            '{}: {}'.format(quote(model.ucamel(cls.name)),
                            quote(model.ucamel(cls.plural)))
            for cls in schema.classes.values())
        required = ', '.join(
            '{}: true'.format(quote('{}.{}'.format(
                model.ucamel(comp.name), model.ucamel(prop.name))))
            for comp in schema.composites() for prop in comp.props
            if not prop.optional and prop.type['type'] in schema.classes)
        return HANDLER % {
            'path': path,
            'idx': idx,
            'registries': registries,
            'required': required,
            'graph': model.ucamel(mapping['name'])
        }

    def build(self, timeout=600):
        """Build all the packages and the driver; give the success."""
        proc = subprocess.run(
            ['go', 'build'] + (['-race'] if self.race else [])
            + ['-o', str(self.root / 'driver'), 'driver'],
            cwd=str(self.src), env=self.env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout)
        self.build_output = proc.stdout.decode('utf-8', 'replace')
        return proc.returncode == 0

    def build_isolating(self, timeout=600):
        """
        Build, leaving out the packages which do not compile.

        :return: {index: diagnostics} of the packages left out
        """
        broken = {}
        for _ in range(6):
            if self.build(timeout):
                return broken
            found = set()
            for mtch in re.finditer(r'batch/s([0-9]+)/|handler([0-9]+)\.go',
                                    self.build_output):
                found.add(int(mtch.group(1) or mtch.group(2)))
            found &= set(self.paths)
            if not found:
                raise RuntimeError('go build failed:\n' +
                                   self.build_output[:4000])
            for idx in found:
                lines = [
                    line for line in self.build_output.splitlines()
                    if 'batch/s{}/'.format(idx) in line
                    or 'handler{}.go'.format(idx) in line
                ]
                broken[idx] = '\n'.join(lines[:12])
                del self.paths[idx]
                (self.src / 'driver' / 'handler{}.go'.format(idx)).unlink()
        raise RuntimeError('go build keeps failing:\n' +
                           self.build_output[:4000])

    def start(self):
        """Start the driver."""
        self.proc = subprocess.Popen(
            [str(self.root / 'driver')], stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=open(
                str(self.root / 'driver.{}.err'.format(os.getpid())), 'wb'), env=self.env)

    def request(self, idx, doc, ref='ref', cap=0, op='', raw=None,
                timeout=60, adds=None):
        """Send the document through the driver."""
        # pylint: disable=too-many-arguments
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        text = raw if raw is not None else json.dumps(doc)
        line = ('{{"s":{},"ref":{},"cap":{},"op":{},"doc":{},"adds":{}}}\n'
                ).format(idx, json.dumps(ref), cap, json.dumps(op), text,
                         json.dumps(adds or []))
        try:
            self.proc.stdin.write(line.encode('utf-8'))
            self.proc.stdin.flush()
        except BrokenPipeError:
            return self.died()
        deadline = time.time() + timeout
        while True:
            ready, _, _ = select.select([self.proc.stdout], [], [],
                                        max(0.0, deadline - time.time()))
            if not ready:
                self.proc.kill()
                self.proc.wait()
                self.proc = None
                return {'panic': 'no answer within {} s'.format(timeout),
                        'stage': 'timeout', 'errors': [], 'exact_refs': []}
            out = self.proc.stdout.readline()
            break
        if not out:
            return self.died()
        resp = json.loads(out.decode('utf-8'))
        resp['errors'] = resp['errors'] or []
        resp['exact_refs'] = sorted(err['ref'] for err in resp['errors'])
        return resp

    def died(self):
        """Report that the driver died."""
        self.proc.wait()
        text = (self.root / 'driver.{}.err'.format(os.getpid())).read_bytes().decode(
            'utf-8', 'replace')
        self.proc = None
        return {
            'panic': 'process died: ' + text[:3000],
            'stage': 'process',
            'errors': [],
            'exact_refs': []
        }

    def close(self):
        """Stop the driver."""
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=10)
            except Exception:  # pylint: disable=broad-except
                self.proc.kill()
                self.proc.wait()
            self.proc = None

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
