"""Compile the generated C++ files one by one, as the users do."""
import os
import subprocess

from vlib import cpprun

FILES = ['types.h', 'parse.h', 'jsoncpp.h', 'parse.cpp', 'jsoncpp.cpp']
INCLUDES = [flag for flag in cpprun.BASE_FLAGS
            if flag not in ('-std=c++17', '-w')]
# The current code is free of all the other warnings.
COMMON = [
    '-Wall', '-Wextra', '-Werror', '-Wno-sign-compare',
    '-Wno-unused-parameter', '-Wno-missing-field-initializers',
    '-Wno-unused-variable', '-Wno-type-limits', '-Wno-comment',
    '-Wno-trigraphs'
]
WARNINGS = {
    'clang++': COMMON + [
        '-Wno-unused-function', '-Wno-unused-const-variable',
        # sizes of arrays beyond 32 bits
        '-Wno-tautological-constant-out-of-range-compare'],
    'g++': COMMON + ['-Wno-unused-function'],
}
STRINGY = {'string', 'time_zone'}


def types_of(mapping):
    """List the types which occur in the schema."""
    found = set()

    def visit(a_type):
        found.add(a_type['type'])
        if 'values' in a_type:
            visit(a_type['values'])

    comps = [mapping] + mapping.get('classes', []) + mapping.get('embeds', [])
    for comp in comps:
        for prop in comp.get('properties', {}).values():
            visit(prop)
    return found


def lacks_string(mapping):
    """Check for maps in a schema without anything else of <string>."""
    found = types_of(mapping)
    return 'map' in found and not mapping.get('classes') \
        and 'string' not in found


def standards(mapping, idx):
    """List the standards in which the code of the schema has to compile."""
    cpp = mapping['cpp']
    found = types_of(mapping)
    if 'path' in found and cpp['path_as'].startswith('std::'):
        return 'c++17'
    if cpp['optional_as'] == 'std::optional':
        return 'c++17'
    # std::make_unique is needed for the instances (a known finding).
    oldest = ['c++14'] if mapping.get('classes') else ['c++11', 'c++11']
    return (oldest + ['c++17', 'c++14'])[idx % 3]


def run(command, cwd):
    """Run the compiler and give the diagnostics if it fails."""
    proc = subprocess.run(
        command, cwd=str(cwd), stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, timeout=600,
        env=dict(os.environ, TMPDIR=str(cwd), LC_ALL='C'))
    if proc.returncode == 0:
        return None
    return proc.stdout.decode('utf-8', 'replace')[:2500] or 'failed'


def check(compiler, outdir, name, std, before=''):
    """Check one file on its own."""
    unit = outdir / 'unit_{}.cpp'.format(name.replace('.', '_'))
    # A header may be included twice.
    times = 2 if name.endswith('.h') else 1
    unit.write_text(before + '#include "{}"\n'.format(name) * times,
                    encoding='utf-8')
    return run([compiler, '-std=' + std, '-fsyntax-only'] +
               WARNINGS[compiler] + INCLUDES + [unit.name], outdir)


def link(root, names):
    """Link the code of several schemas into one program."""
    main = root / 'main.cpp'
    headers = [name for name in FILES if name.endswith('.h')]
    main.write_text(
        ''.join('#include "{}/out/{}"\n'.format(name, header)
                for _ in range(2) for name in names for header in headers) +
        'int main() { return 0; }\n', encoding='utf-8')
    objects = []
    for source in ['main.cpp'] + [
            '{}/out/{}'.format(name, part) for name in names
            for part in ('parse.cpp', 'jsoncpp.cpp')]:
        objects.append('object{}.o'.format(len(objects)))
        problem = run(['clang++', '-std=c++17', '-O0', '-w', '-c'] + INCLUDES +
                      [source, '-o', objects[-1]], root)
        if problem:
            return problem
    timezones = str(cpprun.DEPS / 'date-2.4.1' / 'src' / 'tz.cpp')
    problem = run(['clang++', '-std=c++17', '-w'] + INCLUDES + [timezones] +
                  objects + [cpprun.JSONCPP, '-lboost_filesystem',
                             '-lpthread', '-o', 'program'], root)
    if problem:
        return problem
    return run(['./program'], root)
