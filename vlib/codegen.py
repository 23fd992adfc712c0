"""Run mapry, the code under test."""
import contextlib
import io
import json
import pathlib
import sys

from vlib import common

if str(common.REPO) not in sys.path:
    sys.path.insert(0, str(common.REPO))

# pylint: disable=wrong-import-position
import mapry  # noqa: E402
import mapry.main  # noqa: E402
import mapry.parse  # noqa: E402
import mapry.validation  # noqa: E402


class GenerationError(Exception):
    """Signal that mapry did not generate the code."""

    def __init__(self, stage, message):
        super().__init__('{}: {}'.format(stage, message))
        self.stage = stage
        self.message = message


def load(mapping, workdir):
    """Write the schema and load it as the command line would."""
    pth = pathlib.Path(workdir) / 'schema.json'
    pth.write_text(json.dumps(mapping), encoding='utf-8')
    return mapry.parse.schema_from_json_file(path=pth)


def generate(mapping, lang, outdir, workdir=None):
    """
    Generate the code for the schema.

    :raise: GenerationError
    """
    outdir = pathlib.Path(outdir)
    outdir.mkdir(parents=True, exist_ok=True)
    workdir = pathlib.Path(workdir) if workdir else outdir
    try:
        schema = load(mapping, workdir)
    except mapry.validation.SchemaError as err:
        raise GenerationError('schema', str(err))
    except Exception as err:  # pylint: disable=broad-except
        raise GenerationError('schema-crash', '{}: {}'.format(
            type(err).__name__, err))

    generate_from(schema, lang, outdir)


def generate_from(schema, lang, outdir):
    """
    Generate the code from the loaded schema.

    :raise: GenerationError
    """
    func = {
        'py': mapry.main.generate_py,
        'go': mapry.main.generate_go,
        'cpp': mapry.main.generate_cpp
    }[lang]
    out, err_stream = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(
                err_stream):
            code = func(schema=schema, outdir=outdir)
    except Exception as err:  # pylint: disable=broad-except
        raise GenerationError('generate-crash', '{}: {}'.format(
            type(err).__name__, err))
    if code != 0:
        raise GenerationError('language', err_stream.getvalue())
