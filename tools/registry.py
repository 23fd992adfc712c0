"""
List the properties and write properties.jsonl and MANIFEST.json.

Usage: python3 tools/registry.py
"""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

PY = ['mapry/py/generate/fromjsonable.py', 'mapry/py/generate/tojsonable.py',
      'mapry/py/generate/types.py', 'mapry/py/generate/parse.py',
      'mapry/py/naming.py', 'mapry/py/expr.py']
GO = ['mapry/go/generate/fromjsonable.py', 'mapry/go/generate/tojsonable.py',
      'mapry/go/generate/types.py', 'mapry/go/generate/parse.py',
      'mapry/go/naming.py', 'mapry/go/timeformat.py', 'mapry/go/expr.py']
CPP = ['mapry/cpp/generate/jsoncpp_impl.py',
       'mapry/cpp/generate/jsoncpp_header.py',
       'mapry/cpp/generate/types_header.py',
       'mapry/cpp/generate/parse_impl.py',
       'mapry/cpp/generate/parse_header.py', 'mapry/cpp/naming.py']
CORE = ['mapry/__init__.py', 'mapry/parse.py', 'mapry/naming.py',
        'mapry/validation.py', 'mapry/schemas.py', 'mapry/strftime.py']

TESTS = ('The tests compare the generated text of about sixty fixed schemas '
         'with recorded files and run a handful of documents through some of '
         'them; ')


def only(paths):
    """Keep the files which exist."""
    repo = pathlib.Path('/repo')
    return [path for path in paths if (repo / path).exists()]


# id, title, statement, over, quantifier text, why, files, mechanisms,
# technique, level note
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe,
         technique, note):
    # pylint: disable=too-many-arguments
    """Register a property."""
    PROPS.append({
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': only(files),
            'mechanism': [{'name': name, 'where': where}
                          for name, where in mechanism],
            'observe_at': observe,
            'hook_needed': None
        },
        '_technique': technique, '_note': note
    })


exec((ROOT / 'tools' / 'properties_source.py').read_text())  # noqa


def main():
    """Write the files."""
    from checks.__main__ import MODULES
    with open(str(ROOT / 'properties.jsonl'), 'w') as fid:
        for item in PROPS:
            fid.write(json.dumps({key: value for key, value in item.items()
                                  if not key.startswith('_')}) + '\n')
    checks, missing = [], []
    for item in PROPS:
        pid = item['id']
        if pid not in MODULES:
            missing.append({'property': pid,
                            'reason': 'the check is not built yet'})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'bash check.sh ' + pid,
            'thorough_cmd': 'bash check.sh {} thorough'.format(pid),
            'evidence_file': 'evidence/{}.json'.format(pid),
            'technique': item['_technique'],
            'level': 'exploration',
            'level_note': item['_note'],
        })
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': checks,
        'not_applicable': missing,
        'notes': 'No hooks in /repo are needed: the monitors observe the '
                 'generator and the generated code from outside.'
    }
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')


if __name__ == '__main__':
    main()
