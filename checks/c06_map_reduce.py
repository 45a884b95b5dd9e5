"""C06: map-reduce aggregates each result exactly once"""
import itertools
import operator
from openquake.commonlib.parallel import map_reduce, TaskManager
import tasks
from pool import any_mode, environ, pool

RULE = ('task sets with odd results (None, falsy, pairs, exceptions used as '
        'values, duplicates) run sequentially, in a scripted completion order '
        'or on threads with injected delays; the history of the executed '
        'tasks and of the aggregated results is checked offline: the '
        'signature is (mode, results, aggregation order)')
REQUIRE = ['runs in mode script', 'runs in mode threads',
           'runs in mode sequential', 'tasks executed',
           'results aggregated', 'out of order completions', 'waits',
           'manager rounds']
RESULTS = [None, 0, 1, '', False, (), (None, None), ('msg', ValueError),
           [], {}, 'text', 3.5, ValueError('as a value'), (1, None), -7]


def check_history(obs, n, got, mode, results):
    "Offline check of what was run and aggregated"
    ran = sorted(r[1] for r in tasks.RUNS)
    obs.eq(ran, range(n), 'executed-exactly-once', mode)
    obs.eq(sorted(x[0] for x in got), range(n), 'aggregated-exactly-once',
           mode)
    for i, res in got:
        exp = results[i]
        if isinstance(exp, Exception):
            obs.check(type(res) is type(exp) and res.args == exp.args,
                      'result-value', res, exp)
        else:
            obs.eq(res, exp, 'result-value')
    if mode == 'sequential':
        obs.eq([x[0] for x in got], range(n), 'sequential-order')
    elif [x[0] for x in got] != range(n):
        obs.ev('out of order completions')
    obs.ev('tasks executed', len(tasks.RUNS))
    obs.ev('results aggregated', len(got))


def append(acc, res):
    return acc + [res]


def exactly_once(rnd, obs):
    n = rnd.choice([0, 1, 2, 3, 7, 20])
    results = [rnd.choice(RESULTS) for _ in range(n)]
    args = [(i, res) + rnd.choice([(), (1, 2)])
            for i, res in enumerate(results)]
    args = rnd.choice([list, tuple, iter])(args)
    tasks.reset()
    with any_mode(rnd, obs) as (mode, log):
        got = map_reduce(tasks.pair, args, append, [],
                         rnd.choice([None, 'some task']))
        submitted = len([e for e in log if e[0] == 'submit'])
    obs.note(mode, results)
    obs.eq(submitted, 0 if mode == 'sequential' else n, 'distribution', mode)
    check_history(obs, n, got, mode, results)
    obs.nontrivial(mode, results, [x[0] for x in got])
    obs.sample((mode, [x[0] for x in got]))


def raw_results(rnd, obs):
    "The results are passed as they are, whatever they are"
    n = rnd.choice([1, 2, 3, 5])
    results = [rnd.choice(RESULTS) for _ in range(n)]
    args = [(i, res) for i, res in enumerate(results)]
    task = rnd.choice([tasks.value, tasks.Callable()])
    tasks.reset()
    trace = []

    def agg(acc, res):
        trace.append((acc, res))
        return rnd.choice([None, 0, (), acc, len(trace), [res]])

    outs = []

    def spy(acc, res):
        out = agg(acc, res)
        outs.append(out)
        return out
    acc0 = rnd.choice([None, 0, [], 'start', ValueError('acc'), (None, None)])
    with any_mode(rnd, obs) as (mode, log):
        final = map_reduce(task, args, spy, acc0)
    obs.note(mode, results)
    obs.eq(sorted(repr(r) for acc, r in trace), sorted(map(repr, results)),
           'raw-results')
    # the thread of the accumulators
    obs.check(trace[0][0] is acc0, 'first-accumulator', trace[0][0])
    for i in range(1, len(trace)):
        obs.check(trace[i][0] is outs[i - 1], 'next-accumulator', i)
    obs.check(final is outs[-1], 'last-accumulator', final)
    obs.eq(sorted(r[1] for r in tasks.RUNS), range(n),
           'executed-exactly-once', mode)
    obs.ev('results aggregated', len(trace))
    obs.nontrivial(mode, results, [repr(r) for acc, r in trace])


AGGS = [lambda acc, res: acc + res,
        lambda acc, res: acc * 31 + res,
        lambda acc, res: max(acc, res),
        lambda acc, res: res,
        lambda acc, res: acc]


def same_as_reduce(rnd, obs):
    "Sequentially, map_reduce is reduce over starmap, for any aggregation"
    n = rnd.choice([0, 1, 2, 5, 12])
    args = [(i, rnd.randint(-5, 100)) for i in range(n)]
    agg = rnd.choice(AGGS)
    acc0 = rnd.randint(-3, 3)
    with environ('OQ_NO_DISTRIBUTE', rnd.choice(['1', 'true', 'yes'])):
        got = map_reduce(tasks.value, iter(args), agg, acc0)
    expected = reduce(agg, itertools.starmap(tasks.value, args), acc0)
    obs.eq(got, expected, 'same-as-reduce', args)
    # a commutative aggregation gives the same number in all modes
    with any_mode(rnd, obs) as (mode, log):
        got = map_reduce(tasks.value, args, operator.add, acc0)
    obs.eq(got, acc0 + sum(a[1] for a in args), 'same-in-all-modes', mode)
    obs.nontrivial(mode, args, acc0)


def managers(rnd, obs):
    "Several rounds on the same managers, interleaved"
    with any_mode(rnd, obs) as (mode, log):
        tms = [TaskManager(tasks.pair, lambda *a: None, name)
               for name in ['one', 'two'][:rnd.choice([1, 2])]]
        hist = []
        for round_ in range(rnd.choice([1, 2, 4])):
            tasks.reset()
            n = rnd.choice([0, 1, 3, 6])
            results = [rnd.choice(RESULTS) for _ in range(n)]
            owner = [rnd.randrange(len(tms)) for _ in range(n)]
            for i, res in enumerate(results):
                tms[owner[i]].submit(i, res)
            for t, tm in enumerate(tms):
                mine = [i for i in range(n) if owner[i] == t]
                if rnd.random() < .3:
                    obs.eq(tm.wait(), len(mine), 'wait-count', mode, hist)
                    obs.ev('waits')
                    hist.append(('wait', len(mine)))
                else:
                    got = tm.aggregate_results(append, ['start'])
                    obs.eq(got[0], 'start', 'initial-accumulator')
                    obs.eq(sorted(x[0] for x in got[1:]), mine,
                           'aggregated-exactly-once', mode, hist)
                    hist.append(('aggregate', len(mine)))
                obs.ev('manager rounds')
            obs.eq(sorted(r[1] for r in tasks.RUNS), range(n),
                   'executed-exactly-once', mode, hist)
        # nothing is left
        for tm in tms:
            obs.eq(tm.aggregate_results(append, []), [], 'nothing-left')
            obs.eq(tm.wait(), 0, 'nothing-left')
    obs.nontrivial(mode, hist)


def stress(rnd, obs):
    n = rnd.choice([50, 150, 400])
    tasks.reset()
    results = [rnd.choice(RESULTS) for _ in range(n)]
    with environ('OQ_NO_DISTRIBUTE', None):
        with pool('threads', delay=lambda k: None):
            got = map_reduce(
                tasks.slow_pair,
                [(i, res, rnd.choice([0, 0, 0, .001, .003]))
                 for i, res in enumerate(results)], append, [])
    check_history(obs, n, got, 'threads', results)
    obs.nontrivial([x[0] for x in got])


def arguments(rnd, obs):
    """
    The tasks receive the arguments as they are: none at all, one or many,
    falsy or repeated, in any kind of sequence.
    """
    values = [None, 0, '', (), [], {}, False, 'a', (1, 2), {'x': 1}, [None]]
    args = [[rnd.choice(values) for _ in range(rnd.choice([0, 0, 1, 1, 2, 4]))]
            for _ in range(rnd.choice([1, 2, 5, 12]))]
    given = [rnd.choice([list, tuple, iter, lambda x: (i for i in x)])(a)
             for a in args]
    tasks.reset()
    with any_mode(rnd, obs) as (mode, log):
        got = map_reduce(tasks.echo, rnd.choice([list, tuple, iter])(given),
                         append, [])
    obs.note(mode, args)
    expected = map(tuple, args)
    if mode == 'sequential':
        obs.eq(got, expected, 'arguments')
    obs.eq(sorted(map(repr, got)), sorted(map(repr, expected)), 'arguments')
    obs.eq(len(tasks.RUNS), len(args), 'executed-exactly-once', mode)
    obs.ev('tasks without arguments', args.count([]))
    obs.nontrivial(mode, args)


REQUIRE.append('tasks without arguments')
FAMILIES = [('arguments', arguments, 300, 5000),
            ('exactly_once', exactly_once, 700, 12000),
            ('same_as_reduce', same_as_reduce, 400, 8000),
            ('raw_results', raw_results, 300, 5000),
            ('managers', managers, 300, 6000),
            ('stress', stress, 8, 150)]
