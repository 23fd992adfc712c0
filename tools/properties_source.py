# The properties, executed by registry.py.  # noqa
# pylint: disable=undefined-variable,line-too-long
MONITOR = 'runtime monitoring: '
TRUST = ('Held on the executions counted in the evidence file, nothing more; '
         'trusts the reference model in vlib/model.py (written from the '
         'documentation), the generators in vlib/schemagen.py and '
         'vlib/docgen.py and the installed {}.')
GEN = ('schemas drawn over all primitive types, constraints, formats, nested '
       'arrays and maps, embeds, classes with cross-references, optional '
       'properties, custom JSON names, plurals and language settings; ')

for pid, lang, title, files, extra, toolchain in [
    ('P01', 'Python', 'Round trip through the generated Python code', PY, '',
     'Python'),
    ('P02', 'Go', 'Round trip through the generated Go code', GO, '', 'Go'),
    ('P03', 'C++', 'Round trip through the generated C++ code', CPP, '',
     'g++ and jsoncpp'),
]:
    prop(
        pid, title,
        'For every valid schema and every JSON document which satisfies it, '
        'the {} code generated for the schema parses the document without an '
        'error, and serializing the parsed graph gives back the same '
        'document: all values, map entries, array items, references, instance '
        'identifiers and registries under the same JSON names (durations may '
        'be written in other units, unknown keys and empty registries are '
        'dropped). Parsing the serialized document again gives the same '
        'result.'.format(lang),
        ['programs', 'inputs'], GEN + 'documents valid by construction, with '
        'properties in any order and unknown keys',
        TESTS + 'a round trip has to hold for every schema and document.',
        files + CORE,
        [('parsing of each type', files[0] if lang == 'C++' else files[0]),
         ('serialization of each type', files[0] if lang == 'C++' else files[1]),
         ('unique identifiers of the nested variables', 'mapry/{}/expr.py'.format(
             {'Python': 'py', 'Go': 'go', 'C++': 'cpp'}[lang])),
         ('inferred plurals and JSON names', 'mapry/naming.py')],
        ['return values of the generated from- and to-JSONable functions'],
        MONITOR + 'round-trip oracle with a reference model over generated '
        'schemas and documents', TRUST.format(toolchain) + ' Mechanisms listed in '
        'known_findings.txt are excluded.')

for pid, lang, title, files, extra, toolchain in [
    ('P04', 'Python', 'Generated Python code reports exactly the broken values',
     PY, 'no graph is returned', 'Python'),
    ('P05', 'Go', 'Generated Go code reports exactly the broken values', GO,
     'no panic occurs', 'Go'),
    ('P06', 'C++', 'Generated C++ code reports exactly the broken values', CPP,
     'no exception is thrown', 'g++ and jsoncpp'),
]:
    prop(
        pid, title,
        'For every valid schema and every JSON document, the {} code '
        'generated for the schema reports an error for each value which '
        'breaks the schema and for nothing else: wrong JSON type, missing '
        'mandatory property, number out of its inclusive or exclusive bounds, '
        'pattern, date/time format, array size, dangling reference, '
        'identifier against the ID pattern. Each error carries the reference '
        '(path) to that very value below the given root reference, and {} '
        'when the document is broken.'.format(lang, extra),
        ['programs', 'inputs'], GEN + 'valid documents with up to five '
        'injected faults of all kinds at any position',
        TESTS + 'the failing examples contain one fault each and the '
        'references are compared for those only.', files + CORE,
        [('checks of each type and of the constraints', files[0]),
         ('reference expressions', files[0]),
         ('early stop when the registries are broken', files[0])],
        ['values of the error container after parsing'],
        MONITOR + 'reference-model oracle over fault-injected documents',
        TRUST.format(toolchain) + ' Mechanisms listed in '
        'known_findings.txt are excluded.')

prop(
    'P07', 'References resolve to the registered instances in memory',
    'After a successful parse in Python, Go and C++, every reference to a '
    'class, however deeply nested in arrays, maps and embeds and however '
    'cyclic or shared, is the very instance object held in the registry of '
    'that class under that identifier, and every instance carries the '
    'identifier of its registry key. All the other attributes hold the parsed '
    'values in the documented types of the language, with absent optional '
    'properties left unset and absent registries empty.',
    ['programs', 'inputs'], GEN + 'dense graphs of cross-references',
    TESTS + 'they compare the serialized text and never the identity of the '
    'objects.', PY + GO + CPP,
    [('instances are created before the references are resolved',
      'mapry/py/generate/fromjsonable.py, mapry/go/generate/fromjsonable.py, '
      'mapry/cpp/generate/jsoncpp_impl.py'),
     ('types of the attributes', 'mapry/py/generate/types.py, '
      'mapry/go/generate/types.go')],
    ['object identity and attributes of the parsed graph'],
    MONITOR + 'identity and in-memory value walker over parsed graphs',
    TRUST.format('Python, Go and g++'))

prop(
    'P08', 'Parsing is total on hostile JSON in Python and Go',
    'For every valid schema, the generated Python and Go parsers given any '
    'JSON document at all, however unlike the schema, terminate without an '
    'exception or a panic. They end either with a graph and no errors or with '
    'at least one error.',
    ['programs', 'inputs'], GEN + 'arbitrary JSON values, valid documents '
    'with arbitrary sub-documents exchanged, extreme numbers and texts',
    TESTS + 'totality quantifies over all the documents.', PY + GO,
    [('type checks before each use', 'mapry/py/generate/fromjsonable.py, '
      'mapry/go/generate/fromjsonable.py')],
    ['exceptions, panics, errors and the graph'],
    MONITOR + 'crash oracle under hostile documents',
    TRUST.format('Python and Go') + ' Mechanisms listed in '
    'known_findings.txt are excluded.')

prop(
    'P09', 'Generated C++ code is free of memory errors on any JSON',
    'For every valid schema, the generated C++ code compiled with the '
    'address and undefined-behaviour sanitizers parses any JSON document and '
    'serializes whatever it parsed without a memory error, undefined '
    'behaviour, leak or uncaught exception. Its verdict does not depend on '
    'the content of uninitialised memory.',
    ['programs', 'inputs'], GEN + 'valid, faulty and arbitrary documents',
    TESTS + 'the generated C++ code is never compiled by them.', CPP,
    [('ownership of the instances in the graph',
      'mapry/cpp/generate/types_header.py'),
     ('checked conversions', 'mapry/cpp/generate/jsoncpp_impl.py')],
    ['sanitizer reports, exit status and verdict of the driver'],
    'ASan+UBSan+LSan and pattern-initialised builds under hostile documents',
    TRUST.format('g++, clang++ and jsoncpp') + ' Mechanisms listed in '
    'known_findings.txt are excluded.')

prop(
    'P10', 'The error container keeps the first errors up to its cap',
    'In Python, Go and C++, a generated error container with the cap N keeps '
    'the first N added errors in the order of addition, silently drops the '
    'rest, and tells itself full exactly when it holds N errors and empty '
    'exactly when it holds none; the cap 0 in Go means no cap and never fills. '
    'When parsing with a cap of at least one, the errors are among those '
    'reported without a cap, in the same order wherever the order is '
    'determined, and at least one is reported exactly if at least one is '
    'reported without a cap.',
    ['histories', 'inputs'], 'histories of additions for all small caps; '
    'fault-injected documents under different caps',
    TESTS + 'they always use one cap which is never reached.',
    ['mapry/py/generate/parse.py', 'mapry/go/generate/parse.py',
     'mapry/cpp/generate/parse_impl.py'],
    [('the container', 'mapry/py/generate/parse.py'),
     ('early returns on a full container',
      'mapry/py/generate/fromjsonable.py')],
    ['values, fullness and emptiness after each addition'],
    MONITOR + 'model-based histories of the container',
    TRUST.format('Python, Go and g++'))

prop(
    'P11', 'Durations are parsed exactly and survive serialization',
    'In Python, Go and C++, a duration text is accepted exactly if it is '
    'well-formed and within the range and granularity of the language, with '
    'years of 365.2425 and months of 30.436875 average days, and the parsed '
    'duration equals the exact sum of its components up to the granularity. '
    'Serializing any duration gives a well-formed text which parses back to '
    'the same duration, negative ones included. Mechanisms listed in '
    'known_findings.txt are excluded.',
    ['inputs'], 'texts over all combinations of units, signs, fractions and '
    'magnitudes up to the limits of the representation; durations over the '
    'whole range', TESTS + 'about a dozen duration texts are tried.',
    PY + GO + CPP,
    [('parsing and writing of durations',
      'mapry/py/generate/fromjsonable.py, mapry/py/generate/tojsonable.py, '
      'mapry/go/generate/fromjsonable.py, mapry/go/generate/tojsonable.py, '
      'mapry/cpp/generate/jsoncpp_impl.py')],
    ['parsed durations and serialized texts'],
    MONITOR + 'exact rational oracle over duration texts',
    TRUST.format('Python, Go and g++'))

prop(
    'P12', 'Date/time formats mean the same everywhere or are refused',
    'A non-empty date, time or datetime format is accepted exactly if it '
    'consists of the documented directives of its kind (no time directives '
    'in a date and vice versa) and literals. For every accepted format whose '
    'directives the date/time library of Python or Go supports and which '
    'determines the moment unambiguously, the generated code of the language '
    'parses a text written with that format to that very moment and writes '
    'it back identically. A format which the Go library would misread is '
    'refused when Go code is generated; beyond those, only formats with '
    'literals which contain parts of the Go layouts (digits, "Jan", "Sun", '
    '"PM", "MST" etc.) are refused.',
    ['programs', 'inputs'], 'all the directives, pairs of them and literals '
    'which resemble Go layouts; moments over the whole calendar',
    TESTS + 'they use about twenty formats and one moment each.',
    ['mapry/strftime.py', 'mapry/go/timeformat.py', 'mapry/validation.py',
     'mapry/go/validation.py'] + PY + GO,
    [('tokenizer and validation of the formats', 'mapry/strftime.py'),
     ('conversion to Go layouts', 'mapry/go/timeformat.py')],
    ['verdict of the validation, parsed moments and written texts'],
    MONITOR + 'independent strftime oracle over formats and moments',
    TRUST.format('Python and Go'))

prop(
    'P13', 'Schema loading enforces the documented rules and never crashes',
    'Loading any JSON value as a schema either gives the schema or raises '
    'the schema error which lists what is wrong with references to the '
    'places; nothing else is ever raised, except that a file which is not '
    'JSON is reported with its path and the place where it breaks. Every '
    'documented schema is '
    'accepted, and each documented rule is enforced wherever it applies, '
    'nested value types included: required keys, known types, applicable '
    'constraints of the right type, non-empty bounds and sizes, compilable '
    'patterns, well-formed names as a whole, valid formats, distinct names, '
    'JSON names and registries, and no structure which contains itself.',
    ['inputs'], 'valid schemas, the same with one injected violation of a '
    'rule at any position, and arbitrary mutations of them',
    TESTS + 'there are some sixty failing schemas with one fault in a fixed '
    'place.', ['mapry/validation.py', 'mapry/schemas.py', 'mapry/parse.py',
               'mapry/strftime.py'],
    [('validation', 'mapry/validation.py'),
     ('JSON schema of the schemas', 'mapry/schemas.py')],
    ['result or exception of loading'],
    MONITOR + 'rule-injection oracle over mutated schemas',
    TRUST.format('Python'))

for pid, lang, files, how in [
    ('P14', 'Python', PY, 'imports with warnings as errors, and every class '
     'can be constructed'),
    ('P15', 'Go', GO, 'passes gofmt\'s parser, go vet and go build'),
    ('P16', 'C++', CPP, 'compiles with g++ and clang++, each header on its own '
     'and included twice, in C++14 and C++17 (in C++11 as well when there are '
     'no classes), without warnings on shadowed, uninitialised or mismatched '
     'constructs; the code of two schemas in different namespaces links into '
     'one program'),
]:
    prop(
        pid, 'Accepted schemas give well-formed {} code'.format(lang),
        'For every schema which is accepted for {0}, generating the {0} code '
        'succeeds and the generated code {1}. This includes names with '
        'abbreviations and mixed case, names resembling identifiers used in '
        'the generated code, descriptions, patterns, formats and JSON names '
        'with quotes, backslashes, braces, percents and newlines, deep '
        'nesting, and composites without properties.'.format(lang, how),
        ['programs'], GEN + 'adversarial texts and names',
        TESTS + 'well-formedness quantifies over the schemas.', files + CORE,
        [('templates', files[0]), ('escaping of strings', 'mapry/{}'.format(
            {'Python': 'py', 'Go': 'go', 'C++': 'cpp'}[lang])),
         ('indention', 'mapry/indention.py')],
        ['compiler or interpreter diagnostics'],
        MONITOR + 'compiler as an oracle over generated schemas',
        TRUST.format('toolchain'))

prop(
    'P17', 'Clashing and reserved names are refused before generation',
    'A schema whose names collide or are reserved once they are converted '
    'to the identifiers of a language (types, attributes, registries), or '
    'whose module, package or namespace is reserved or hidden in the '
    'generated code, is refused for that language with an error which refers to the name, and '
    'no file is written. A schema without such a clash is not refused.',
    ['programs'], 'schemas with injected clashes between any two kinds of '
    'names and with keywords of each language, and schemas without',
    TESTS + 'each kind of clash is tried with one name.',
    ['mapry/py/validation.py', 'mapry/go/validation.py',
     'mapry/cpp/validation.py', 'mapry/py/naming.py', 'mapry/cpp/naming.py',
     'mapry/naming.py', 'mapry/validation.py'],
    [('language validation', 'mapry/py/validation.py, mapry/go/validation.py, '
      'mapry/cpp/validation.py')],
    ['verdict of the validation and the written files'],
    MONITOR + 'clash-injection oracle', TRUST.format('Python'))

prop(
    'P18', 'Generation is a deterministic function of the schema',
    'Generating the code twice for the same schema gives byte-identical '
    'files, independently of the hash seed of the process, the working '
    'directory, the output directory, the locale, the time, other '
    'generations in the same process and previous content of the output '
    'directory.',
    ['programs', 'configurations'], GEN + 'runs in fresh processes with '
    'different hash seeds and environments',
    TESTS + 'all of them run with one hash seed, one schema at a time.',
    ['mapry/main.py'] + PY + GO + CPP,
    [('ordered containers', 'mapry/__init__.py, mapry/parse.py'),
     ('sorted imports and includes', 'mapry/py/generate/types.py')],
    ['bytes of the generated files'],
    MONITOR + 'differential runs across hash seeds and environments',
    TRUST.format('Python'))

prop(
    'P19', 'The command line reports success truthfully',
    'The command exits with 0 exactly if it wrote the complete set of files '
    'of the language into the output directory, which it creates as needed, '
    'overwriting existing files and touching no others. On a missing or '
    'invalid schema, missing language settings or a language-specific '
    'problem it fails with a message on the standard error, which names the '
    'settings when they are missing, and writes no generated file.',
    ['inputs', 'fault_sequences'], 'command lines over valid, invalid and '
    'missing schemas, languages, and states of the output directory',
    TESTS + 'the command line is hardly run by them.',
    ['mapry/main.py', 'mapry/__main__.py'],
    [('command-line interface', 'mapry/main.py')],
    ['exit code, streams and the file system'],
    MONITOR + 'file-system and exit-code monitor over command lines',
    TRUST.format('Python'))

prop(
    'P20', 'Python, Go and C++ agree on every document',
    'For every schema and document within the values which all the languages '
    'can represent, the Python, Go and C++ code accept or reject the document '
    'alike and refer to the same broken places. If they accept, what one '
    'language serializes is accepted by the other languages and serialized '
    'to an equal document.',
    ['programs', 'inputs'], GEN + 'valid and faulty documents within the '
    'common range of the languages',
    TESTS + 'no test compares the languages with each other.', PY + GO + CPP,
    [('the three generators', 'mapry/py, mapry/go, mapry/cpp')],
    ['verdicts, references and serialized documents of the languages'],
    MONITOR + 'N-version differential oracle',
    TRUST.format('Python, Go, g++ and jsoncpp'))

prop(
    'P21', 'Parsing and serialization are pure and guard the registries',
    'Parsing leaves the given document untouched, and serialization leaves '
    'the graph untouched, so that both can be repeated with the same result, '
    'also concurrently: threads and goroutines which parse the same document '
    'or serialize the same graph at the same time get the same results '
    'without data races. The ordered serialization in Python lists the '
    'properties in the order of the schema followed by the registries. '
    'Serialization refuses a registry whose key differs from the identifier '
    'of the instance, in Python, Go and C++.',
    ['programs', 'inputs', 'histories', 'schedules'], GEN + 'repeated and '
    'concurrent parses and serializations of the same objects, tampered '
    'registries',
    TESTS + 'each is called once on fresh objects and in one thread.',
    PY + GO + CPP, [('identifier guard', 'mapry/py/generate/tojsonable.py, '
                     'mapry/go/generate/tojsonable.py, '
                     'mapry/cpp/generate/jsoncpp_impl.py')],
    ['deep snapshots before and after the calls, reports of the race '
     'detectors, results of each thread'],
    MONITOR + 'snapshot monitor around repeated calls, Go race detector and '
    'ThreadSanitizer around concurrent ones',
    TRUST.format('Python, Go, g++ and the race detectors'))

prop(
    'P22', 'Limits are exact at and around every boundary',
    'In Python, Go and C++, a number is accepted exactly if it lies within '
    'the minimum and maximum of its property, inclusive or exclusive as '
    'stated, an array exactly if its size is within the stated sizes, and an '
    'integer exactly if it is representable in the language. This holds for '
    'the bound itself and for its nearest neighbours, for negative, '
    'fractional, huge and tiny bounds, and at any nesting. (The number is the '
    'one which the JSON library of the language gives to the code.)',
    ['programs', 'inputs'], 'systematic combinations of bounds, exclusivity, '
    'sizes and values at and next to the bounds, nested in optional '
    'properties, arrays, maps, embeds and classes',
    TESTS + 'one value inside and one outside is tried per kind of bound.',
    PY + GO + CPP + ['mapry/parse.py'],
    [('bound checks', 'mapry/py/generate/fromjsonable.py, '
      'mapry/go/generate/fromjsonable.py, '
      'mapry/cpp/generate/jsoncpp_impl.py')],
    ['verdicts on each value'],
    MONITOR + 'exhaustive boundary oracle',
    TRUST.format('Python, Go and g++'))

prop(
    'P23', 'Cosmetic settings do not change the behaviour',
    'Descriptions, indention, module and package names, namespaces and the '
    'choice of representation (paths, time zones, optionals, date/time '
    'library) change neither which documents the generated code accepts nor '
    'what it serializes, as far as the representations agree. Neither does '
    'consistently renaming composites and properties whose JSON names are '
    'fixed, nor reordering the definitions, nor stating the defaults.',
    ['programs', 'configurations'], 'pairs of schemas which differ in such '
    'settings only, run on the same documents',
    TESTS + 'no test compares two settings.', PY + GO + CPP + CORE,
    [('settings', 'mapry/parse.py'), ('indention', 'mapry/indention.py')],
    ['verdicts and serialized documents of both variants'],
    MONITOR + 'metamorphic pairs', TRUST.format('Python, Go and g++'))

prop(
    'P24', 'Generated Go tests and Python doctests pass',
    'For every valid schema, the tests which are generated along with the Go '
    'code compile and pass (go test -vet=off), and the examples in the '
    'generated Python documentation strings hold (compared as values). What '
    'known_findings.txt lists is excluded.',
    ['programs'], GEN + 'the generated tests are run for each',
    TESTS + 'the generated tests are run for the recorded schemas only.',
    GO + PY, [('generated tests', 'mapry/go/generate/fromjsonable_test.py, '
               'mapry/go/generate/tojsonable_test.py')],
    ['results of the generated tests'],
    MONITOR + 'generated test suites as monitors',
    TRUST.format('Python and Go'))

prop(
    'P25', 'Loaded schemas represent their definitions',
    'For every valid definition, the loaded schema represents it exactly: the '
    'settings, all classes, embeds and properties in the order of the '
    'definition under their names, with descriptions, JSON names, plurals, '
    'identifier patterns and references to their places, each type with all '
    'its constraints at any nesting, the documented defaults in place of '
    'what is left out, and the names of composites resolved to the very '
    'composites of the graph. The queries over the schema (which types are '
    'needed, which classes are referenced, which types occur and where) '
    'agree with the definition.',
    ['programs'], 'definitions drawn over all types, constraints, nestings '
    'and settings, loaded from files and from the memory',
    TESTS + 'the representation is not inspected at all.',
    CORE,
    [('loading', 'mapry/parse.py'), ('queries', 'mapry/__init__.py'),
     ('plurals', 'mapry/naming.py')],
    ['the loaded schema object', 'results of the queries'],
    MONITOR + 'an independent reading of the definition as oracle',
    TRUST.format('Python'))

prop(
    'P26', 'Error messages name the broken constraint and the value',
    'Whatever the schema and the document, each error message of the '
    'generated Python, Go and C++ parsing code tells truthfully what was '
    'expected and what was met instead: the name of the missing property, '
    'the pattern or the format, the bound with its comparison (inclusive or '
    'exclusive), the minimum or maximum size, the class of a dangling '
    'reference or the expected JSON type; together with the offending value, '
    'size or type. No part is left unformatted whatever characters the '
    'patterns, formats and values contain.',
    ['programs', 'inputs'], GEN + 'valid documents with one or two faults '
    'of all kinds at any position, in three languages',
    TESTS + 'the messages of a few failing examples are pinned, where each '
    'constraint has one usual value.',
    ['mapry/py/generate/fromjsonable.py', 'mapry/go/generate/fromjsonable.py',
     'mapry/cpp/generate/jsoncpp_impl.py'],
    [('messages', 'mapry/py/generate/fromjsonable.py'),
     ('messages', 'mapry/go/generate/fromjsonable.py'),
     ('messages', 'mapry/cpp/generate/jsoncpp_impl.py')],
    ['messages of the error container after parsing'],
    MONITOR + 'the constraint which the reference model finds broken as '
    'oracle of the message', TRUST.format('all languages'))

prop(
    'P27', 'Annotations of the generated Python code describe the values',
    'For every schema which is valid for Python, all the functions, methods '
    'and constructors of the generated Python code annotate all their '
    'parameters and results, the annotations can be evaluated in the module '
    'where they are written, and whatever document is parsed and serialized, '
    'the arguments, the returned values, the attributes of the instances and '
    'the variables annotated by type comments are of the annotated types at '
    'any nesting. They are None only where the annotation is optional (save '
    'for the placeholders marked by "type: ignore").',
    ['programs', 'inputs'], GEN + 'valid documents and documents with faults '
    'of all kinds',
    TESTS + 'the type checker is run on a few pinned examples with shallow '
    'types.',
    ['mapry/py/generate/types.py', 'mapry/py/generate/fromjsonable.py',
     'mapry/py/generate/tojsonable.py', 'mapry/py/generate/__init__.py'],
    [('annotations', 'mapry/py/generate/__init__.py'),
     ('constructors', 'mapry/py/generate/types.py'),
     ('imports', 'mapry/py/generate/fromjsonable.py')],
    ['traced calls, returns, local variables and attributes at run time'],
    MONITOR + 'the annotations of the code itself as oracle of the traced '
    'values', TRUST.format('Python'))
