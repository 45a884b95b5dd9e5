"""C07: the failures of the tasks are reported, never lost"""
from openquake.commonlib.parallel import (
    map_reduce, TaskManager, safely_call, Pickled)
import tasks
from pool import any_mode

RULE = ('task sets where a random subset fails with one of many exception '
        'types (also SystemExit and old style classes) in any execution mode; '
        'the signature is (mode, failures, order)')
REQUIRE = ['runs in mode script', 'runs in mode threads',
           'runs in mode sequential', 'failures reported', 'clean runs',
           'safe calls', 'pickled calls', 'many tasks']
TEXTS = ['boom', '100%', 'a %s b', '', 'two\nlines', 'quote"s', '{}',
         'long ' * 200, '\ttab', 'None', 'caf\xc3\xa9', '\0']


def err_name(idx):
    return tasks.ERRORS[idx].__name__


def err_text(idx, text):
    cls = tasks.ERRORS[idx]
    if issubclass(cls, tasks.CustomError):
        return str(cls(7, text))
    return str(cls(text))


def large(rnd, obs):
    failures(rnd, obs, 150, [0, .01, .02, .5])
    obs.ev('many tasks')


def failures(rnd, obs, n=None, probs=(0, .1, .4, 1)):
    n = n or rnd.choice([1, 2, 3, 6, 12])
    prob = rnd.choice(probs)
    specs = []
    for i in range(n):
        idx = (rnd.randrange(len(tasks.ERRORS)) if rnd.random() < prob
               else None)
        specs.append((i, idx, rnd.choice(TEXTS)) + rnd.choice(
            [(), (), (1,), (7,), (40,)]))
    bad = set(i for i, idx in [s[:2] for s in specs] if idx is not None)
    aggregated = []

    def agg(acc, res):
        aggregated.append(res)
        return acc + 1

    tasks.reset()
    error = None
    with any_mode(rnd, obs) as (mode, log):
        obs.note(mode, specs)
        if rnd.random() < .5:
            def run():
                return map_reduce(tasks.maybe_fail, specs, agg, 0)
        else:
            tm = TaskManager(tasks.maybe_fail, lambda *a: None)
            for spec in specs:
                tm.submit(*spec)  # never fails

            if rnd.random() < .3:
                run = tm.wait
                agg = None
            else:
                def run():
                    return tm.aggregate_results(agg, 0)
        if bad:
            error = obs.raises(RuntimeError, run, 'failure-not-reported')
        else:
            obs.eq(run(), n, 'all-aggregated')
            obs.ev('clean runs')
        # ids of the futures in the order in which they were consumed
        submits = [e[1] for e in log if e[0] == 'submit']
        yields = [submits.index(e[1]) for e in log if e[0] == 'yield']
    done = [r[0] for r in aggregated]
    obs.check(not bad & set(done), 'failed-task-aggregated', done)
    obs.check(len(set(done)) == len(done), 'aggregated-twice', done)
    if not bad:
        if agg:
            obs.eq(sorted(done), range(n), 'all-aggregated')
    else:
        text = str(error)
        culprits = [s for s in specs if s[1] is not None
                    and err_name(s[1]) + ': ' + err_text(s[1], s[2]) in text]
        obs.check(culprits, 'error-type-and-message', text)
        obs.check('failing_inner_function' in text and
                  'maybe_fail' in text, 'error-traceback', text)
        if mode == 'sequential':
            first = min(bad)
            if agg:
                obs.eq(done, range(first), 'aggregated-before-the-failure')
            obs.check(specs[first] in culprits, 'first-failure', text)
            obs.eq(len(tasks.RUNS), n, 'all-tasks-run')
        elif mode == 'script' and agg:
            # the results consumed before the first failing one
            k = [i for i in yields if i in bad]
            before = yields[:yields.index(k[0])] if k else yields
            obs.eq(done, before, 'aggregated-before-the-failure', yields)
        obs.ev('failures reported')
    obs.nontrivial(mode, specs, done)
    obs.sample((mode, specs))


def agg_errors(rnd, obs):
    "An error in the aggregation function is not hidden"
    n = rnd.choice([1, 3, 5])
    when = rnd.randrange(n)
    calls = []

    def agg(acc, res):
        calls.append(res)
        if len(calls) == when + 1:
            raise ZeroDivisionError('in agg')
        return acc + 1

    with any_mode(rnd, obs) as (mode, log):
        obs.raises(ZeroDivisionError, lambda: map_reduce(
            tasks.pair, [(i, i) for i in range(n)], agg, 0),
            'aggregation-error', mode)
    obs.eq(len(calls), when + 1, 'aggregation-stops')
    obs.nontrivial(mode, n, when)


def bad_args(rnd, obs):
    "A task called with the wrong arguments is a failing task"
    args = rnd.choice([(), (1,), (1, 2, 3)])
    with any_mode(rnd, obs) as (mode, log):
        e = obs.raises(RuntimeError, lambda: map_reduce(
            tasks.bad_signature, [(1, 2), args], lambda a, r: a, 0),
            'wrong-arguments', mode)
    obs.check('TypeError' in str(e), 'wrong-arguments-message', str(e))
    obs.nontrivial(mode, args)


def safe_calls(rnd, obs):
    pickle = rnd.random() < .5
    fail = rnd.random() < .6
    idx = rnd.randrange(len(tasks.ERRORS)) if fail else None
    text = rnd.choice(TEXTS)
    args = (rnd.randint(0, 9), idx, text)
    if pickle:
        out = safely_call(tasks.maybe_fail, [Pickled(a) for a in args],
                          pickle=True)
        obs.check(isinstance(out, Pickled), 'pickled-result', out)
        out = out.unpickle()
        obs.ev('pickled calls')
    else:
        out = safely_call(tasks.maybe_fail, rnd.choice([args, list(args)]))
    obs.check(isinstance(out, tuple) and len(out) == 2, 'pair', out)
    res, exc = out
    if fail:
        obs.check(exc is tasks.ERRORS[idx], 'exception-type', exc, idx)
        obs.check(isinstance(res, basestring) and
                  err_name(idx) + ': ' + err_text(idx, text) in res,
                  'exception-text', res)
        obs.check('failing_inner_function' in res, 'exception-traceback',
                  res)
    else:
        obs.check(exc is None, 'no-exception', out)
        obs.eq(res, (args[0], text), 'returned-value')
    obs.ev('safe calls')
    obs.nontrivial(pickle, args)


def unprintable(rnd, obs):
    "An exception without a printable message is reported too"
    n = rnd.choice([1, 2, 4])
    bad = rnd.randrange(n)
    got = []
    with any_mode(rnd, obs) as (mode, log):
        e = obs.raises(RuntimeError, lambda: map_reduce(
            tasks.unprintable, [(i, i == bad) for i in range(n)],
            lambda acc, res: got.append(res), None),
            'unprintable-failure', mode)
    obs.check('Unprintable' in str(e), 'unprintable-type', str(e))
    obs.check(bad not in got, 'failed-task-aggregated', got)
    obs.nontrivial(mode, n, bad)


FAMILIES = [('large', large, 12, 250),
            ('failures', failures, 800, 15000),
            ('agg_errors', agg_errors, 150, 2000),
            ('unprintable', unprintable, 30, 300),
            ('bad_args', bad_args, 60, 500),
            ('safe_calls', safe_calls, 500, 6000)]
