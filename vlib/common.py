"""Shared plumbing: arguments, evidence, verdicts, known findings."""
import contextlib
import hashlib
import json
import os
import pathlib
import random
import shutil
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('MAPRY_REPO', '/repo'))
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'
CPUS = min(8, os.cpu_count() or 1)


def scale(quick, thorough):
    """Pick the size of a workload for the tier."""
    return thorough if THOROUGH else quick


def rng(*salt):
    """Give a deterministic random generator for this run."""
    text = repr((SEED, ) + salt)
    return random.Random(hashlib.sha256(text.encode()).digest())


ACTIVE = []


class Inconclusive(Exception):
    """Signal that the monitors could not decide."""


@contextlib.contextmanager
def scratch(prefix='mapryvf_'):
    """Provide a scratch directory which is removed at the end."""
    pth = pathlib.Path(tempfile.mkdtemp(prefix=prefix))
    try:
        yield pth
    finally:
        shutil.rmtree(str(pth), ignore_errors=True)


def known_findings():
    """Parse the committed list: property -> {key: description}."""
    result = {}
    pth = VERIF / 'known_findings.txt'
    if not pth.exists():
        return result
    for line in pth.read_text(encoding='utf-8').splitlines():
        line = line.strip()
        if not line.startswith('finding:'):
            continue
        rest = line[len('finding:'):].strip()
        head, _, desc = rest.partition(' :: ')
        fields = dict(part.split('=', 1) for part in head.split())
        result.setdefault(fields['property'], {})[fields['key']] = desc
    return result


def to_jsonable(obj):
    """Convert to something json.dumps digests."""
    if isinstance(obj, dict):
        return {str(k): to_jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [to_jsonable(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


class Check:
    """Collect what a check observed and produce the verdict."""

    def __init__(self, prop, rule, level='exploration', assumptions=()):
        self.prop = prop
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_seen = {}
        self.start = time.time()
        self.known = known_findings().get(prop, {})
        self.minimum = {}
        self._sample_keys = {}
        ACTIVE.append(self)

    # -- observation ------------------------------------------------------
    def observe(self, key, nontrivial=True, sample=None, n=1):
        """Count one monitored execution."""
        self.evaluations += n
        if nontrivial:
            if not isinstance(key, (str, bytes)):
                key = repr(key)
            self.distinct.add(hashlib.md5(
                key.encode() if isinstance(key, str) else key).digest()[:8])
        if sample is not None and len(self.samples) < 6:
            self.samples.append(to_jsonable(sample))

    def count(self, name, n=1):
        """Increment a counter."""
        self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, at_least=1):
        """Demand that a counter reaches a level, inconclusive otherwise."""
        self.minimum[name] = at_least

    # -- verdicts ---------------------------------------------------------
    def violation(self, what, replay, key=None):
        """
        Record a violation.

        A key names the mechanism; if the mechanism is a known finding
        of this property, the violation is reported as such.
        """
        if key is not None and key in self.known:
            self.known_seen.setdefault(key, what)
            self.count('known:' + key)
            return
        if len(self.violations) < 50:
            self.violations.append((what, replay))
        self.count('violations')

    def finding(self, key, present, what, replay):
        """Decide a probe of a listed finding: it is known, or a violation."""
        self.count('probe:' + key)
        if present:
            self.violation(what, replay, key=key)

    def finish(self):
        """Write the evidence and exit with the verdict."""
        missing = [
            '{} = {} < {}'.format(name, self.counters.get(name, 0), at_least)
            for name, at_least in self.minimum.items()
            if self.counters.get(name, 0) < at_least
        ]
        evidence = {
            'property': self.prop,
            'tier': TIER,
            'seed': SEED,
            'level': self.level,
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.rule,
                'samples': self.samples,
                'counters': {k: self.counters[k]
                             for k in sorted(self.counters)},
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.start, 2),
            'violations': len(self.violations),
        }
        evdir = VERIF / 'evidence'
        evdir.mkdir(exist_ok=True)
        (evdir / (self.prop + '.json')).write_text(
            json.dumps(evidence, indent=1, ensure_ascii=True) + '\n',
            encoding='utf-8')

        for key in sorted(self.known_seen):
            print('KNOWN-FINDING: property={} key={} {}'.format(
                self.prop, key, self.known[key]))

        if self.violations:
            rdir = VERIF / 'replays'
            rdir.mkdir(exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:10]):
                pth = rdir / '{}-{}-{}.json'.format(self.prop, SEED, i)
                pth.write_text(
                    json.dumps({
                        'property': self.prop,
                        'what': what,
                        'seed': SEED,
                        'tier': TIER,
                        'replay': to_jsonable(replay)
                    }, indent=1) + '\n', encoding='utf-8')
                print('what: {}'.format(what)[:2000])
                print('VIOLATION property={} replay={}'.format(self.prop, pth))
            sys.stdout.flush()
            return 1

        print('{}: held on {} evaluations, {} distinct non-trivial; '
              '{}; {:.1f} s'.format(
                  self.prop, self.evaluations, len(self.distinct),
                  ', '.join('{}={}'.format(k, self.counters[k])
                            for k in sorted(self.counters)),
                  time.time() - self.start))
        if missing or self.evaluations == 0:
            print('INCONCLUSIVE: {}'.format('; '.join(missing)))
            return 3
        return 0


def run_check(func):
    """Run a check, mapping crashes of the machinery to an error exit."""
    try:
        code = func()
    except Exception as err:  # pylint: disable=broad-except
        # What was found before stays found.
        traceback.print_exc()
        if type(err).__name__ == 'GenerationError' and ACTIVE:
            ACTIVE[0].violation(
                'no code for a valid schema: {}'.format(err), {})
        found = [check for check in ACTIVE if check.violations]
        if found:
            code = found[0].finish()
        elif isinstance(err, Inconclusive):
            print('INCONCLUSIVE: {}'.format(err))
            code = 3
        else:
            code = 4
    sys.stdout.flush()
    sys.exit(code)
