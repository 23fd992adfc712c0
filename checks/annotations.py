"""Monitor the values against the annotations of the generated Python code."""
import ast
import collections.abc
import inspect
import json
import sys
import typing

from checks import pychecks
from vlib import common, docgen, model, par, schemagen

LIMIT = 40


def unfit(value, hint, depth=0):
    """Describe how the value does not fit the annotation; None if it does."""
    # pylint: disable=too-many-return-statements,too-many-branches
    if hint is typing.Any:
        return None
    if hint is None or hint is type(None):
        return None if value is None else '{!r} instead of None'.format(value)
    origin = typing.get_origin(hint)
    args = typing.get_args(hint)
    if origin is typing.Union:
        found = [unfit(value, arg, depth) for arg in args]
        if any(what is None for what in found):
            return None
        return next((what for what, arg in zip(found, args)
                     if arg is not type(None)), found[0])
    if origin is None:
        if hint is float:
            good = isinstance(value, (int, float))
        elif hint is int:
            # A boolean is an integer in Python.
            good = isinstance(value, int)
        elif isinstance(hint, type):
            # A type checker lets a moment pass for a day, yet they differ.
            good = type(value) is hint or (  # pylint: disable=C0123
                isinstance(value, hint) and
                type(value).__name__ != 'datetime')
        else:
            return 'unknown annotation {!r}'.format(hint)
        return None if good else '{!r} instead of {}'.format(
            value, getattr(hint, '__name__', hint))
    if not isinstance(value, origin):
        return '{!r} instead of {}'.format(value, hint)
    if issubclass(origin, collections.abc.Mapping):
        if len(args) == 2:
            for key, sub in list(value.items())[:LIMIT]:
                what = unfit(key, args[0], depth + 1) or unfit(
                    sub, args[1], depth + 1)
                if what:
                    return 'in a mapping: ' + what
        return None
    if issubclass(origin, collections.abc.Iterable):
        if isinstance(value, (list, tuple)) and args:
            for sub in value[:LIMIT]:
                what = unfit(sub, args[0], depth + 1)
                if what:
                    return 'in a sequence: ' + what
        return None
    return 'unknown annotation {!r}'.format(hint)


class Module:
    """Collect the annotations of one generated module."""

    def __init__(self, module):
        self.module = module
        self.path = module.__file__
        self.problems = []
        # name and first line of a function -> (hints, variables)
        self.functions = {}
        with open(self.path, encoding='utf-8') as fid:
            tree = ast.parse(fid.read(), type_comments=True)
        for node in tree.body:
            if isinstance(node, ast.ClassDef):
                owner = getattr(module, node.name)
                for sub in node.body:
                    if isinstance(sub, ast.FunctionDef):
                        self.add(vars(owner)[sub.name], sub)
            elif isinstance(node, ast.FunctionDef):
                self.add(getattr(module, node.name), node)

    def add(self, func, node):
        """Read the annotations of the function."""
        func = getattr(func, '__func__', func)
        if not inspect.isfunction(func):
            return
        name = '{}.{}'.format(self.module.__name__, func.__qualname__)
        try:
            hints = typing.get_type_hints(func)
        except Exception as err:  # pylint: disable=broad-except
            self.problems.append('{}: {!r}'.format(name, err))
            return
        params = list(inspect.signature(func).parameters)
        if '.' in func.__qualname__:
            params = params[1:]
        for param in params + ['return']:
            if param not in hints:
                self.problems.append('{}: {} is not annotated'.format(
                    name, param))
        variables = {}
        for sub in ast.walk(node):
            if not isinstance(sub, ast.Assign) or not sub.type_comment:
                continue
            target = sub.targets[0]
            try:
                # pylint: disable=eval-used
                hint = eval(sub.type_comment.split('#')[0],
                            vars(self.module))
            except Exception as err:  # pylint: disable=broad-except
                if not sub.type_comment.startswith('ignore'):
                    self.problems.append('{}: the annotation {!r}: {!r}'.format(
                        name, sub.type_comment, err))
                continue
            variables.setdefault(ast.unparse(target), []).append(hint)
        self.functions[func.__code__] = (name, params, hints, variables)


class Monitor:
    """Trace the calls in the generated code."""

    def __init__(self, modules, reused):
        self.functions = {}
        # variables which the code uses for something else, too
        self.reused = reused
        self.problems = []
        for module in modules:
            part = Module(module)
            self.functions.update(part.functions)
            self.problems += part.problems
        self.parse = modules[1].__file__
        self.unwinding = set()
        self.counts = {'arguments': 0, 'returned': 0, 'variables': 0}
        self.found = []

    def judge(self, kind, name, value, hint):
        """Judge one value."""
        self.counts[kind] += 1
        what = unfit(value, hint)
        if what:
            self.found.append('{}: {}'.format(name, what[:500]))

    def trace(self, frame, event, arg):
        """Follow the calls."""
        known = self.functions.get(frame.f_code)
        if known is None:
            return None
        name, params, hints, variables = known
        if event == 'call':
            # The placeholders are deliberately built from nothing
            # ("type: ignore" in the generated code).
            empty = frame.f_code.co_name == '__init__' and \
                frame.f_back.f_code.co_filename == self.parse
            for param in params:
                if param in hints and not (
                        empty and frame.f_locals[param] is None):
                    self.judge('arguments', '{}({})'.format(name, param),
                               frame.f_locals[param], hints[param])
        elif event == 'exception':
            self.unwinding.add(frame)
        elif event == 'line':
            self.unwinding.discard(frame)
        elif event == 'return':
            if frame in self.unwinding:
                self.unwinding.discard(frame)
                return None
            if 'return' in hints:
                self.judge('returned', name + ' returned', arg,
                           hints['return'])
            for variable, types in variables.items():
                if variable in self.reused:
                    continue
                if variable in frame.f_locals:
                    value = frame.f_locals[variable]
                elif variable.startswith('self.') and hasattr(
                        frame.f_locals.get('self'), variable[5:]):
                    value = getattr(frame.f_locals['self'], variable[5:])
                else:
                    continue
                # The same name may be annotated in several branches.
                self.judge('variables', '{}: {}'.format(name, variable),
                           value, typing.Union[tuple(types)])
        return self.trace

    def __enter__(self):
        sys.settrace(self.trace)

    def __exit__(self, *args):
        sys.settrace(None)


def attributes(rec, module, graph, replay):
    """Compare the attributes of all the instances with the constructors."""
    todo, seen = [graph], set()
    while todo:
        value = todo.pop()
        if isinstance(value, (list, tuple)):
            todo += value
        elif isinstance(value, dict):
            todo += value.values()
        elif type(value).__module__ == module.name:
            if id(value) in seen:
                continue
            seen.add(id(value))
            hints = typing.get_type_hints(type(value).__init__)
            for name, sub in vars(value).items():
                rec.count('attributes')
                what = 'no such parameter' if name not in hints \
                    else unfit(sub, hints[name])
                if what:
                    rec.violation('attribute {} of {}: {}'.format(
                        name, type(value).__name__, what[:500]), replay)
                todo.append(sub)


def item(rec, idx):
    """Monitor the code of one schema."""
    mapping = pychecks.schema_for('P27', idx)
    schema = model.Schema(mapping)
    rng = common.rng('P27', 'docs', idx)
    docs = docgen.Docs(rng, schema, 'py')
    # The forward references of an earlier module may be remembered.
    for cleanup in getattr(typing, '_cleanups', []):
        cleanup()
    module = pychecks.open_module(rec, mapping, idx)
    if module is None:
        rec.observe(('schema', idx), False)
        return
    with module:
        monitor = Monitor([module.base, module.parse, module.fromjsonable,
                           module.tojsonable],
                          {'target_' + name.lower() for name in
                           [cls['name'] for cls in mapping.get(
                               'classes', [])]})
        for problem in monitor.problems:
            rec.violation(problem, {'schema': mapping})
        for number in range(common.scale(10, 30)):
            doc = docs.valid()
            if number % 2:
                doc = docs.mutate(doc, rng.choice([1, 1, 2, 4]))
            replay = {'schema': mapping, 'document': doc}
            with monitor:
                res = module.from_jsonable(
                    doc, cap=rng.choice([1, 3, 1000, 1000]))
            out = None
            if res.exception is None and res.graph is not None:
                attributes(rec, module, res.graph, replay)
                with monitor:
                    out = module.to_jsonable(res.graph, bool(number % 3))
                rec.count('serialized')
            else:
                rec.count('rejected')
            rec.observe((idx, json.dumps(doc)), len(doc) > 0,
                        sample={'document': doc, 'out': out}
                        if number == 0 else None)
            for what in monitor.found[:3]:
                rec.violation(what, replay)
            if monitor.found:
                break
    for kind, count in monitor.counts.items():
        rec.count(kind, count)
    for feature in schemagen.features(mapping):
        rec.observe(('feature', feature), True, n=0)


def p27():
    """Decide P27."""
    check = common.Check(
        'P27', 'a distinct (schema, document) pair with at least one key, '
        'parsed and serialized under the monitor')
    for kind in ('arguments', 'returned', 'variables', 'attributes'):
        check.require(kind, 500)
    check.require('serialized', 200)
    check.require('rejected', 100)
    par.run(check, item, range(common.scale(400, 3000)))
    return check.finish()
