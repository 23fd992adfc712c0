"""Monitor the command line: files, exit codes and determinism."""
import collections
import copy
import json
import os
import pathlib
import re
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from checks import loading
from vlib import codegen, common, par, schemagen

FILES = {
    'cpp': ['types.h', 'parse.h', 'parse.cpp', 'jsoncpp.h', 'jsoncpp.cpp'],
    'go': ['types.go', 'parse.go', 'from_jsonable.go',
           'from_jsonable_test.go', 'to_jsonable.go', 'to_jsonable_test.go'],
    'py': ['__init__.py', 'parse.py', 'fromjsonable.py', 'tojsonable.py'],
}
LANGS = ['cpp', 'go', 'py']
# what the language refuses although the schema is valid
REFUSED = {
    'cpp': ('namespace', 'class'),
    'go': ('package', 'func'),
    'py': ('module_name', 'class'),
}
# problems with the options precede the problems with the schema
USAGE = {'missing option', 'unknown option', 'unknown language', 'no command',
         'superfluous argument'}


# -- one command line -----------------------------------------------------
def snapshot(root):
    """Take the state of the directory: path -> content."""
    result = {}
    for folder, dirs, files in os.walk(str(root)):
        for name in dirs + files:
            pth = pathlib.Path(folder) / name
            rel = str(pth.relative_to(root))
            if pth.is_symlink():
                result[rel] = ('link', os.readlink(str(pth)))
            elif pth.is_dir():
                result[rel] = ('dir', )
            elif pth.is_file():
                result[rel] = ('file', pth.read_bytes())
            else:
                result[rel] = ('other', )
    return result


def resolve(path, cwd):
    """Resolve a path as the operating system would."""
    return os.path.realpath(os.path.join(str(cwd), os.fsdecode(path)))


class Observed:
    """Represent what was observed with a command line."""

    code = None
    stdout = ''
    stderr = ''
    touched = ()
    hung = False


def in_fork(argv, cwd, limit, tmp):
    """Run the entry point in a fork of this process under an audit hook."""
    # pylint: disable=too-many-locals,too-many-statements
    pipes = [os.pipe() for _ in range(3)]
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            for reader, _ in pipes:
                os.close(reader)
            os.dup2(pipes[0][1], 1)
            os.dup2(pipes[1][1], 2)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            os.chdir(str(cwd))
            sys.argv = argv
            tempfile.tempdir = str(tmp)
            os.environ['HOME'] = str(tmp)
            signal.alarm(60)
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            log = []

            def hook(event, args):
                if event == 'open':
                    path, _, flags = args
                    if isinstance(path, int) or not (flags or 0) & (
                            os.O_WRONLY | os.O_RDWR | os.O_CREAT
                            | os.O_TRUNC | os.O_APPEND):
                        return
                    log.append((event, resolve(path, os.getcwd())))
                elif event in ('os.mkdir', 'os.remove', 'os.rmdir',
                               'os.truncate', 'os.chmod', 'os.chown',
                               'os.symlink', 'os.link', 'os.rename',
                               'os.utime', 'os.chdir'):
                    for arg in args[:2]:
                        if isinstance(arg, (str, bytes)):
                            log.append((event, resolve(arg, os.getcwd())))
                elif event in ('subprocess.Popen', 'os.system', 'os.exec',
                               'socket.connect'):
                    log.append((event, repr(args)))

            sys.addaudithook(hook)
            try:
                code = codegen.mapry.main.entry_point()
            except SystemExit as err:
                code = err.code
                if code is not None and not isinstance(code, int):
                    print(code, file=sys.stderr)
                    code = 1
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 1
            code = 0 if code is None else code & 0xff
            sys.stdout.flush()
            sys.stderr.flush()
            os.write(pipes[2][1], json.dumps(log).encode())
        except BaseException:  # pylint: disable=broad-except
            code = 98
        finally:
            os._exit(code)  # pylint: disable=protected-access
    seen = Observed()
    texts = []
    for _, writer in pipes:
        os.close(writer)
    # The streams are short enough for the buffers of the pipes, except for
    # long tracebacks: drain the error stream first.
    for which in (1, 0, 2):
        with open(pipes[which][0], 'rb') as fid:
            texts.append(fid.read().decode('utf-8', 'replace'))
    _, status = os.waitpid(pid, 0)
    seen.hung = os.WIFSIGNALED(status)
    seen.code = None if seen.hung else os.WEXITSTATUS(status)
    seen.stderr, seen.stdout = texts[:2]
    seen.touched = json.loads(texts[2]) if texts[2] else []
    return seen


def in_process(argv, cwd, how, tmp):
    """Run the command in a process of its own."""
    if how == 'module':
        command = [sys.executable, '-m', 'mapry'] + argv[1:]
    else:
        command = [
            sys.executable, '-c', 'import sys, mapry.main; '
            'sys.argv[0] = "mapry-to"; sys.exit(mapry.main.entry_point())'
        ] + argv[1:]
    seen = Observed()
    try:
        got = subprocess.run(command, cwd=str(cwd), stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, timeout=120,
                             stdin=subprocess.DEVNULL,
                             env=dict(os.environ, HOME=str(tmp)))
    except subprocess.TimeoutExpired:
        seen.hung = True
        return seen
    seen.code = got.returncode
    seen.stdout = got.stdout.decode('utf-8', 'replace')
    # Python complains about the sources of mapry itself
    seen.stderr = got.stderr.decode('utf-8', 'replace')
    return seen


# -- P19: cases -----------------------------------------------------------
def bad_bytes(rng, mapping):
    """Break the text of the schema so that it is no JSON."""
    text = json.dumps(mapping).encode()
    kind = rng.randrange(7)
    if kind == 0:
        return b''
    if kind == 1:
        return text[:rng.randrange(1, len(text) - 1)]
    if kind == 2:
        return text + b'}'
    if kind == 3:
        return text[:-1] + b', "name": \xff\xfe"}'
    if kind == 4:
        return text.replace(b'"', b"'")
    if kind == 5:
        return b'{' + text
    return text.replace(b':', b'=')


class Case:
    """Prepare a directory and a command line, and know the outcome."""

    # pylint: disable=too-many-instance-attributes,too-many-statements

    def __init__(self, rng, root, mapping):
        # pylint: disable=too-many-branches
        self.root = root
        self.cwd = root / 'work dir'
        self.cwd.mkdir()
        (root / 'tmp').mkdir()
        self.features = []
        self.reasons = []
        self.limit = None
        self.lang = rng.choice(LANGS)
        self.mapping = copy.deepcopy(mapping)
        self.expect_ok = True
        # whether files of the set may have been written upon a failure
        self.partial = False
        self.named = None

        place = rng.choice(['', 'in/', '../sch dir/', '\u00fc/'])
        pth = self.cwd / (place + rng.choice(
            ['schema.json', 's', 'a b.json', ' s ', '~.json', '%s{0}.$HOME',
             's\\n.json', "s'*?", 'schema.json.bak']))
        pth.parent.mkdir(parents=True, exist_ok=True)
        self.schema_arg = str(pth) if rng.random() < 0.5 else os.path.relpath(
            str(pth), str(self.cwd))
        self.schema(rng, pth)
        self.outdir_arg = None
        self.outdir(rng)
        self.argv = ['mapry-to', self.lang]
        pairs = [['--schema', self.schema_arg], ['--outdir', self.outdir_arg]]
        if rng.random() < 0.3:
            pairs = [[name + '=' + value] for name, value in pairs]
        rng.shuffle(pairs)
        roll = rng.random()
        if roll < 0.03:
            self.fail('missing option')
            pairs.pop()
        elif roll < 0.05:
            self.fail('unknown option')
            pairs.append(['--verbatim'])
        elif roll < 0.07:
            self.fail('unknown language')
            self.argv[1] = rng.choice(['c', 'python', 'CPP', 'java', ''])
        elif roll < 0.08:
            self.fail('no command')
            self.argv.pop()
        elif roll < 0.09:
            self.fail('superfluous argument')
            pairs.append(['more'])
        for pair in pairs:
            self.argv.extend(pair)

    def fail(self, feature, partial=False):
        """Note why the command has to fail."""
        self.reasons.append(feature)
        self.features.append(feature)
        if self.expect_ok:
            self.partial = partial
        elif not partial:
            self.partial = False
        self.expect_ok = False

    def schema(self, rng, pth):
        """Write the schema."""
        data = None
        roll = rng.random()
        if roll < 0.5:
            self.features.append('valid')
            for lang in LANGS:
                if lang != self.lang and rng.random() < 0.2:
                    self.mapping.pop(lang, None)
        elif roll < 0.56:
            self.fail('missing schema')
            self.named = pth.name
            return
        elif roll < 0.59:
            self.fail('directory as schema')
            self.named = pth.name
            pth.mkdir()
            return
        elif roll < 0.66:
            self.fail('not JSON')
            data = bad_bytes(rng, self.mapping)
        elif roll < 0.69:
            self.fail('not an object')
            data = json.dumps(rng.choice([None, [], 3, 'x', [{}]])).encode()
        elif roll < 0.76:
            self.fail('no settings')
            self.mapping.pop(self.lang)
        elif roll < 0.83:
            self.fail('refused by the language')
            self.refused(rng)
        elif roll < 0.87:
            key, value = REFUSED[rng.choice(
                [lang for lang in LANGS if lang != self.lang])]
            self.features.append('refused by another language only')
            for lang in LANGS:
                if lang != self.lang and key in self.mapping[lang]:
                    self.mapping[lang][key] = value
        else:
            for _ in range(rng.choice([1, 1, 2])):
                try:
                    loading.mutate(rng, self.mapping)
                except (TypeError, KeyError, AttributeError, IndexError):
                    pass
        if data is None:
            data = json.dumps(self.mapping, indent=rng.choice(
                [None, 2]), ensure_ascii=rng.random() < 0.5).encode(
                    'utf-8', 'surrogatepass')
        if rng.random() < 0.1:
            real = self.root / 'real schema'
            real.write_bytes(data)
            pth.symlink_to(real)
        else:
            pth.write_bytes(data)

    def refused(self, rng):
        """Let there be one or many problems with the language."""
        if rng.random() < 0.4:
            key, value = REFUSED[self.lang]
            self.mapping[self.lang][key] = value
            return
        count = rng.choice([1, 2, 127, 128, 255, 256, 256, 257, 512])
        desc = {'type': 'boolean', 'description': 'is one.'}
        for number in range(count):
            for first in 'zZ':
                self.mapping.setdefault('properties', {})['{}q{}'.format(
                    first, number)] = dict(desc)
        self.features.append('{} problems'.format(count))

    def stale(self, rng, wanted):
        """Let previous files be as long as the ones to be written."""
        for filename, content in sorted(wanted.items()):
            pth = self.target / filename
            if not pth.is_symlink() and pth.is_file() and (
                    rng.random() < 0.5):
                pth.write_bytes(rng.choice(
                    [b'~' * len(content), content[:-1] + b'~',
                     content + b'\n', content.rstrip(),
                     content.replace(b'\n', b'\r\n'), content.lower(),
                     b'\xef\xbb\xbf' + content, b'',
                     content.replace(b' ', b'')]))
                if rng.random() < 0.3:
                    moment = rng.choice([0, 2**31 - 1, 4102444800])
                    os.utime(str(pth), (moment, moment))
                self.features.append('previous file of the same size')

    def outdir(self, rng):
        """Choose the output directory and its state."""
        # pylint: disable=too-many-branches
        name = rng.choice(['out', 'new/deep/out', '../out dir', 'o\u00fct',
                           '.', './x/..', 'out/', 'a/../b', '~', '~/out',
                           '$HOME', ' out ', "o'%s{}*?", 'new\\line\n',
                           'out.py', 'schema.json.d'])
        if name in ('./x/..', 'a/../b'):
            (self.cwd / name.split('/..')[0]).mkdir()
        target = self.cwd / name
        if name == 'out' and rng.random() < 0.2:
            real = self.root / 'elsewhere'
            real.mkdir()
            target.symlink_to(real)
            self.features.append('link to a directory')
        self.outdir_arg = name if rng.random() < 0.6 else str(target)
        self.target = target
        roll = rng.random()
        if roll < 0.35 and not target.exists():
            self.features.append('new outdir')
            return
        if roll < 0.40 and not target.exists():
            self.fail('outdir is a file')
            target.parent.mkdir(parents=True, exist_ok=True)
            self.target = target
            pathlib.Path(str(target).rstrip('/')).write_text('file')
            return
        if roll < 0.44 and not target.exists():
            self.fail('outdir below a file')
            (self.cwd / 'plain').write_text('file')
            self.target = self.cwd / 'plain' / 'out'
            self.outdir_arg = 'plain/out'
            return
        target.mkdir(parents=True, exist_ok=True)
        for _ in range(rng.choice([0, 0, 1, 3])):
            other = rng.choice(['types.hpp', 'README', 'jsoncpp.h.orig',
                                'sub/types.h', 'types', '.hidden', 'a.go',
                                '__main__.py', 'test_types.py', 'Parse.cpp',
                                'types.go~', 'old_test.go', 'py.typed',
                                '__pycache__/parse.cpython-38.pyc',
                                '.git/HEAD', 'types.h.tmp', '.types.h.swp',
                                'parse.py.bak', 'go.mod', 'schema.json'])
            (target / other).parent.mkdir(exist_ok=True)
            (target / other).write_text('other ' + other)
        for lang in LANGS:
            if rng.random() < 0.3:
                for filename in FILES[lang]:
                    if rng.random() < 0.7:
                        (target / filename).write_text(
                            'old\n' * rng.choice([1, 10, 100000]))
        roll = rng.random()
        victim = target / rng.choice(FILES[self.lang])
        if roll < 0.06:
            self.fail('a directory in place of a file', True)
            if victim.exists():
                victim.unlink()
            victim.mkdir()
        elif roll < 0.14:
            self.fail('no space left on the device', True)
            if victim.exists():
                victim.unlink()
            victim.symlink_to('/dev/full')
        elif roll < 0.22:
            self.limit = rng.choice([0, 1, 100, 2000, 8192, 20000])


WORDS = {'cpp': r'C\+\+|\bcpp\b', 'go': r'\b[gG]o\b',
         'py': r'Python|\bpy\b'}


def judge_case(rec, idx):
    """Run one command line and compare the file system before and after."""
    # pylint: disable=too-many-locals,too-many-branches,too-many-return-statements
    rng = common.rng('P19', idx)
    mapping = schemagen.generate(rng, schemagen.Opts(
        'cpp', cross=True, embeds=(0, 2), classes=(0, 2), props=(1, 3)))
    for lang in LANGS:
        mapping.setdefault(lang, {'cpp': {
            'namespace': 'x', 'path_as': 'std::filesystem::path',
            'optional_as': 'boost::optional',
            'datetime_library': 'ctime'}, 'go': {'package': 'x'},
            'py': {'module_name': 'x'}}[lang])
    with common.scratch() as root:
        (root / 'box').mkdir()
        case = Case(rng, root / 'box', mapping)
        wanted = {}
        if case.expect_ok or case.limit is not None or case.partial:
            # What the library does tells what the command has to do.
            try:
                reference = root / 'reference'
                codegen.generate(case.mapping, case.lang, reference)
                for name in FILES[case.lang]:
                    if not (reference / name).exists():
                        return rec.violation(
                            'the generator reports success without {}'.format(
                                name), {'schema': case.mapping,
                                        'language': case.lang})
                    wanted[name] = (reference / name).read_bytes()
                case.features.append('generated')
            except codegen.GenerationError as err:
                case.fail('refused: ' + err.stage)
        if case.limit is not None:
            if case.expect_ok and case.limit < max(map(len, wanted.values())):
                case.fail('limited file size', True)
        case.stale(rng, wanted)
        before = snapshot(case.root)
        replay = {'arguments': case.argv, 'case': idx,
                  'features': case.features, 'schema': case.mapping,
                  'limit': case.limit}
        if idx % 15 == 0 and case.limit is None:
            how = rng.choice(['module', 'script'])
            seen = in_process(case.argv, case.cwd, how, case.root / 'tmp')
            rec.count('processes')
        else:
            seen = in_fork(case.argv, case.cwd, case.limit, case.root / 'tmp')
            rec.count('audited_events', len(seen.touched))
        after = snapshot(case.root)
        for feature in sorted(set(case.features)):
            rec.count('case: ' + feature)
        rec.observe((idx, case.features), True)

        def bad(text):
            rec.violation(
                '{} ({}): exit code {!r}, stderr {!r}'.format(
                    text, ', '.join(case.features), seen.code,
                    seen.stderr[-300:]), replay)

        if seen.hung:
            return bad('the command did not finish')
        if case.expect_ok != (seen.code == 0):
            return bad('the command had to {}'.format(
                'succeed' if case.expect_ok else 'fail'))
        if not case.expect_ok:
            if not seen.stderr.strip():
                return bad('failed without a message on stderr')
            if case.reasons == ['no settings']:
                text = seen.stderr
                for path in (str(case.root), case.argv):
                    for part in [path] if isinstance(path, str) else path:
                        text = text.replace(str(part), '')
                for lang, words in sorted(WORDS.items()):
                    if bool(re.search(words, text)) != (lang == case.lang):
                        return bad('the message does not name the missing '
                                   'settings of {}'.format(case.lang))
            if case.named and case.named not in seen.stderr and not (
                    USAGE & set(case.features)):
                return bad('the message does not name the schema')
        out = os.path.realpath(str(case.target))
        box = os.path.realpath(str(case.root))
        allowed = {os.path.join(out, name) for name in FILES[case.lang]}
        rel_out = os.path.relpath(out, box)
        parents = {rel_out}
        while os.path.dirname(rel_out):
            rel_out = os.path.dirname(rel_out)
            parents.add(rel_out)
        for rel in sorted(set(before) | set(after)):
            if before.get(rel) == after.get(rel):
                continue
            full = os.path.join(os.path.realpath(os.path.join(
                box, os.path.dirname(rel))), os.path.basename(rel))
            if full in allowed and (case.expect_ok or case.partial):
                continue
            if rel in parents and rel not in before and after[rel] == (
                    'dir', ):
                continue
            return bad('{} was touched'.format(rel))
        if case.expect_ok:
            for name, content in wanted.items():
                rel = os.path.relpath(os.path.join(out, name), box)
                if after.get(rel) != ('file', content):
                    return bad('{} is missing or incomplete'.format(name))
        for event, path in seen.touched:
            if path.startswith(box + os.sep) or path == box:
                continue
            if path == '/dev/full':
                continue
            if event == 'os.mkdir' and os.path.isdir(path):
                continue
            return bad('{} outside of the output: {}'.format(event, path))
        rec.count('succeeded' if case.expect_ok else 'failed')
        return None


def p19():
    """Decide P19."""
    check = common.Check(
        'P19', 'a distinct command line with its state of the file system')
    check.require('succeeded', 100)
    check.require('failed', 100)
    for name in ('missing schema', 'not JSON', 'no settings',
                 'refused by the language', 'limited file size',
                 'no space left on the device', 'outdir is a file',
                 'previous file of the same size', '256 problems'):
        check.require('case: ' + name, 3)
    par.run(check, judge_case, range(common.scale(900, 12000)))
    return check.finish()


# -- P18: determinism -----------------------------------------------------
DRIVER = r'''
import contextlib, hashlib, json, os, random, shutil, sys
import mapry.main
with open(sys.argv[1], encoding='utf-8') as fid:
    jobs = json.load(fid)
result = {}
for job in jobs:
    sys.argv = ['mapry-to', job['lang'], '--schema', job['schema'],
                '--outdir', job['outdir']]
    if job['shared']:
        # The schemas replace each other at the same path.
        shutil.copyfile(job['schema'], job['shared'])
        if len(result) % 2:
            os.utime(job['shared'], (1500000000, 1500000000))
        sys.argv[3] = job['shared']
    try:
        code = mapry.main.entry_point()
        if code == 0 and job.get('stale'):
            # Spoil the files without changing their sizes and times.
            for name in sorted(os.listdir(job['outdir'])):
                pth = os.path.join(job['outdir'], name)
                if os.path.isfile(pth):
                    stat = os.stat(pth)
                    with open(pth, 'rb') as fid:
                        data = bytearray(fid.read())
                    if job['stale'] == 'end':
                        data += b'\n'
                    elif job['stale'] == 'cut':
                        data = data.rstrip()
                    elif job['stale'] == 'crlf':
                        data = data.replace(b'\n', b'\r\n')
                    elif job['stale'] == 'case':
                        data = data.swapcase()
                    elif job['stale'] == 'blank':
                        data = data.replace(b'  ', b' ')
                    elif data:
                        for pos in (range(len(data)) if job['stale'] == 'all'
                                    else [len(data) // 2, len(data) - 1]):
                            data[pos] = 0x7e
                    with open(pth, 'wb') as fid:
                        fid.write(data)
                    os.utime(pth, ns=(stat.st_atime_ns, stat.st_mtime_ns))
            code = mapry.main.entry_point()
    except BaseException as err:
        code = repr(err)
    got = {}
    if code == 0:
        for name in sorted(os.listdir(job['outdir'])):
            pth = os.path.join(job['outdir'], name)
            if os.path.isfile(pth):
                with open(pth, 'rb') as fid:
                    got[name] = hashlib.sha256(fid.read()).hexdigest()
    result[job['key']] = [code, got]
with open(RESULT, 'w', encoding='utf-8') as fid:
    json.dump(result, fid)
'''


def runs(total):
    """List the environments: (name, variables, options, job order)."""
    base = {'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONHASHSEED': '0'}
    result = [('reference', base, [], 'same')]
    result.append(('again', base, [], 'same'))
    result.append(('locale', dict(
        base, LC_ALL='C', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0',
        TZ='Asia/Kolkata'), [], 'reversed'))
    result.append(('optimized', dict(base, PYTHONHASHSEED='77'), ['-OO'],
                   'shuffled'))
    number = 0
    while len(result) < total:
        number += 1
        rng = common.rng('P18', 'env', number)
        result.append((
            'seed{}'.format(number),
            dict(base, PYTHONHASHSEED=str(rng.choice(
                [number, rng.randrange(2**32)])),
                 TZ=rng.choice(['UTC', 'America/New_York']),
                 HOME='/nonexistent', USER='user{}'.format(number)),
            [], rng.choice(['same', 'reversed', 'shuffled'])))
    return result


def p18_run(rec, job):
    """Generate the code of all the schemas in a process of its own."""
    number, (name, variables, options, order), root, keys = job
    home = root / name
    work = home / rec_name(number)
    work.mkdir(parents=True)
    rng = common.rng('P18', 'order', name)
    jobs = []
    for key in keys:
        idx, lang = key.split('-')
        schema = root / 'schemas' / (idx + '.json')
        outdir = home / 'out' / key
        if number % 2:
            outdir = work / ('o-' + key)
            if rng.random() < 0.5:
                outdir.mkdir(parents=True)
                for filename in FILES[lang]:
                    if rng.random() < 0.5:
                        (outdir / filename).write_text('x\n' * 50000)
        relative = number % 2 == 1 and rng.random() < 0.7
        stale = None
        if number > 1 and rng.random() < 0.25:
            stale = rng.choice(['all', 'some', 'end', 'cut', 'crlf', 'case',
                                'blank'])
        jobs.append({
            'key': key, 'lang': lang, 'stale': stale,
            'shared': str(work / 'current.json') if number % 3 == 2 else None,
            'schema': os.path.relpath(str(schema), str(work))
                      if relative else str(schema),
            'outdir': os.path.relpath(str(outdir), str(work))
                      if relative else str(outdir)})
    if order == 'reversed':
        jobs.reverse()
    elif order == 'shuffled':
        rng.shuffle(jobs)
    (home / 'jobs.json').write_text(json.dumps(jobs))
    env = {key: value for key, value in os.environ.items()
           if key in ('PATH', 'PYTHONPATH')}
    env.update(variables)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONWARNINGS'] = 'ignore'
    (home / 'driver.py').write_text(DRIVER.replace(
        'RESULT', repr(str(home / 'result.json'))))
    start = time.time()
    with (home / 'stderr').open('wb') as err:
        code = subprocess.run(
            [sys.executable] + options + [str(home / 'driver.py'),
                                          str(home / 'jobs.json')],
            cwd=str(work), env=env, stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=err).returncode
    if code != 0:
        raise common.Inconclusive(
            'the driver failed: ' + (home / 'stderr').read_text()[-500:])
    rec.count('process_ms', int(1000 * (time.time() - start)))


def p18_repeat(rec, job):
    """Generate the code repeatedly from the same objects."""
    idx, root, mapping = job
    rng = common.rng('P18', 'repeat', idx)
    pth = root / 'schemas' / '{}.json'.format(idx)
    loaded = json.loads(pth.read_text(encoding='utf-8'),
                        object_pairs_hook=collections.OrderedDict)
    first = codegen.mapry.parse.schema_from_mapping(loaded, str(pth))
    second = codegen.mapry.parse.schema_from_mapping(loaded, str(pth))
    steps = [('the schema loaded from a mapping', first),
             ('the same schema object', first),
             ('the schema loaded again from the same mapping', second)]
    with common.scratch() as tmp:
        for number, (name, schema) in enumerate(steps):
            for lang in rng.sample(LANGS, 3):
                outdir = tmp / 'out-{}-{}'.format(number, lang)
                outdir.mkdir()
                code = 0
                try:
                    codegen.generate_from(schema, lang, outdir)
                except codegen.GenerationError as err:
                    if err.stage != 'language':
                        raise
                    code = 1
                want = root / 'reference' / 'out' / '{}-{}'.format(idx, lang)
                expected = sample(want, FILES[lang]) if (
                    want / FILES[lang][0]).exists() else None
                got = sample(outdir, FILES[lang]) if code == 0 else None
                rec.observe((idx, lang, name), True)
                if got == expected:
                    rec.count('repeated')
                    continue
                text = 'the outcomes differ'
                if got is not None and expected is not None:
                    text = ', '.join(
                        '{}: {}'.format(filename, first_difference(
                            expected[filename], got[filename]))
                        for filename in FILES[lang]
                        if expected[filename] != got[filename])
                rec.violation('{}: {}: {}'.format(lang, name, text), {
                    'schema': mapping, 'language': lang})
                return


def rec_name(number):
    """Name a working directory."""
    return ['w', 'work dir', 'deep/er', 'x'][number % 4]


def sample(outdir, names):
    """Read the files."""
    result = {}
    for name in names:
        pth = pathlib.Path(outdir) / name
        result[name] = pth.read_text(encoding='utf-8') if pth.exists() else ''
    return result


def first_difference(one, other):
    """Describe the first line which differs."""
    for number, (left, right) in enumerate(zip(
            one.split('\n'), other.split('\n'))):
        if left != right:
            return 'line {}: {!r} != {!r}'.format(number + 1, left, right)
    return 'the lengths differ'


def p18_rich(rng):
    """Generate a schema which needs many imports and class references."""
    mapping = schemagen.generate(rng, schemagen.Opts(
        'cpp', cross=True, embeds=(2, 5), classes=(2, 6), props=(3, 8),
        class_weight=4))
    return mapping


def p18():
    """Decide P18."""
    # pylint: disable=too-many-locals
    check = common.Check(
        'P18', 'a distinct (schema, language, environment) triple whose '
        'generated bytes were compared with those of the reference run')
    total = common.scale(90, 700)
    with common.scratch() as root:
        (root / 'schemas').mkdir()
        keys = []
        mappings = []
        for idx in range(total):
            rng = common.rng('P18', idx)
            mapping = p18_rich(rng)
            mappings.append(mapping)
            (root / 'schemas' / '{}.json'.format(idx)).write_text(
                json.dumps(mapping, ensure_ascii=idx % 2 == 0),
                encoding='utf-8')
            keys.extend('{}-{}'.format(idx, lang) for lang in LANGS)
        envs = runs(common.scale(16, 48))
        par.run(check, p18_run, [
            (number, env, root, keys) for number, env in enumerate(envs)])
        par.run(check, p18_repeat, [
            (idx, root, mapping) for idx, mapping in enumerate(mappings)])
        results = {}
        for name, _, _, _ in envs:
            results[name] = json.loads(
                (root / name / 'result.json').read_text())
        for name, variables, options, order in envs[1:]:
            for key in keys:
                idx, lang = key.split('-')
                want, got = results['reference'][key], results[name][key]
                check.observe((key, name), True)
                replay = {'schema': mappings[int(idx)], 'language': lang,
                          'environment': variables, 'options': options,
                          'order': order}
                if want == got:
                    check.count('identical' if want[0] == 0 else 'refused')
                    continue
                diff = sorted(
                    filename for filename in set(want[1]) | set(got[1])
                    if want[1].get(filename) != got[1].get(filename))
                text = ''
                for job in json.loads((root / name / 'jobs.json').read_text()):
                    if job['key'] == key and diff:
                        there = sample(
                            root / name / rec_name(
                                [env[0] for env in envs].index(name))
                            / job['outdir'], diff)
                        here = sample(root / 'reference' / 'out' / key, diff)
                        text = first_difference(here[diff[0]], there[diff[0]])
                check.violation(
                    'environment {}: {} {!r} {!r}: {} {}'.format(
                        name, lang, want[0], got[0], diff, text), replay)
    check.require('identical', 1000)
    check.require('repeated', 500)
    return check.finish()
