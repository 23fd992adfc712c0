"""Run monitored workloads in parallel and merge what they observed."""
import multiprocessing
import traceback

from vlib import codegen, common


class Recorder:
    """Record observations in a worker, with the interface of the check."""

    def __init__(self):
        self.events = []

    def observe(self, key, nontrivial=True, sample=None, n=1):
        """Record an observation."""
        self.events.append(('observe', (key, nontrivial, sample, n)))

    def count(self, name, n=1):
        """Record a counter."""
        self.events.append(('count', (name, n)))

    def note(self, *args):
        """Pass the arguments on to the method of the check."""
        self.events.append(('note', args))

    def violation(self, what, replay, key=None):
        """Record a violation."""
        self.events.append(('violation', (what, common.to_jsonable(replay),
                                          key)))


def _work(args):
    func, item = args
    rec = Recorder()
    try:
        func(rec, item)
    except common.Inconclusive as err:
        return rec.events, ('inconclusive', str(err))
    except codegen.GenerationError as err:
        rec.violation('no code for a valid schema: {}'.format(err),
                      {'item': repr(item)})
        return rec.events, None
    except Exception:  # pylint: disable=broad-except
        return rec.events, ('crash', traceback.format_exc())
    return rec.events, None


def run(check, func, items, procs=None):
    """Apply ``func(recorder, item)`` to the items; merge in the order."""
    procs = procs or common.CPUS
    items = list(items)
    problems = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, max(1, len(items))), maxtasksperchild=50) as pool:
        for events, problem in pool.imap(
                _work, [(func, item) for item in items], chunksize=1):
            for kind, args in events:
                getattr(check, kind)(*args)
            if problem is not None:
                problems.append(problem)
    for kind, text in problems:
        if kind == 'crash':
            check.count('crashed_workers')
            if not check.violations:
                raise RuntimeError('worker crashed:\n' + text)
    if problems:
        # A watchdog fired: tolerate only when something else is found.
        if not check.violations:
            raise common.Inconclusive(problems[0][1])
